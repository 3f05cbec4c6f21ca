//! Readers with rules (spec: RulesTrace.tla).
use crate::io::Disk;
use crate::pkt::*;
use crate::types::*;
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Cursor, Read};
use std::rc::Rc;

thread_local! {
    /// calls of filters: kind, id, argument
    static CALLS: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
    /// foreign bytes: id of the rule, bytes
    static IGNORED: RefCell<Vec<(usize, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
}

pub fn ref_block(b: &BlockReferred<'_>) -> Block {
    match b {
        BlockReferred::BkU(b) => Block::BkU(BkU { a: b.a, b: b.b, c: b.c, d: b.d, e: b.e }),
        BlockReferred::BkI(b) => Block::BkI(BkI { a: b.a, b: b.b, c: b.c, d: b.d, e: b.e }),
        BlockReferred::BkF(b) => Block::BkF(BkF { x: b.x, y: b.y, p: b.p, q: b.q }),
        BlockReferred::BkM(b) => {
            Block::BkM(BkM { head: *b.head, tag: b.tag, mid: *b.mid, tail: *b.tail, kind: b.kind, fin: b.fin })
        }
        BlockReferred::BkN(b) => Block::BkN(BkN { v: b.v, w: *b.w }),
        BlockReferred::BkT(b) => Block::BkT(BkT { id: b.id, tag: b.tag }),
    }
}

fn tag_of(blocks: &[Block]) -> u8 {
    blocks.iter().find_map(|b| if let Block::BkT(b) = b { Some(b.tag) } else { None }).unwrap_or(255)
}

fn on_blocks(id: usize, b: &[BlockReferred<'_>]) -> bool {
    let blocks: Vec<Block> = b.iter().map(ref_block).collect();
    let arg: Vec<Value> = blocks.iter().map(block_json).collect();
    CALLS.with(|c| c.borrow_mut().push(json!({"kind": "blocks", "id": id, "arg": arg})));
    tag_of(&blocks) & 1 != 0
}
fn on_payload(id: usize, b: &[u8]) -> bool {
    CALLS.with(|c| c.borrow_mut().push(json!({"kind": "payload", "id": id, "arg": bytes(b)})));
    b.is_empty() || b[0] & 2 != 0
}
fn on_packet(id: usize, p: &Packet) -> bool {
    CALLS.with(|c| c.borrow_mut().push(json!({"kind": "packet", "id": id, "arg": pkt_json(p)})));
    tag_of(&p.blocks) & 4 != 0
}
fn on_ignored(id: usize, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    IGNORED.with(|c| {
        let mut c = c.borrow_mut();
        match c.last_mut() {
            Some((i, v)) if *i == id => v.extend_from_slice(b),
            _ => c.push((id, b.to_vec())),
        }
    })
}

const STATIC: usize = 900;
fn s_blocks(b: &[BlockReferred<'_>]) -> bool {
    on_blocks(STATIC, b)
}
fn s_payload(b: &[u8]) -> bool {
    on_payload(STATIC, b)
}
fn s_packet(p: &Packet) -> bool {
    on_packet(STATIC, p)
}
fn s_ignored(b: &[u8]) {
    on_ignored(STATIC, b)
}

pub fn rule<'a>(kind: &str, id: usize, fixed: bool) -> Rule<'a> {
    use brec::RuleFnDef as F;
    match (kind, fixed) {
        ("blocks", false) => Rule::FilterByBlocks(F::Dynamic(Box::new(move |b: &[BlockReferred]| on_blocks(id, b)))),
        ("payload", false) => Rule::FilterByPayload(F::Dynamic(Box::new(move |b: &[u8]| on_payload(id, b)))),
        ("packet", false) => Rule::Filter(F::Dynamic(Box::new(move |p: &Packet| on_packet(id, p)))),
        (_, false) => Rule::Ignored(F::Dynamic(Box::new(move |b: &[u8]| on_ignored(id, b)))),
        ("blocks", true) => Rule::FilterByBlocks(F::Static(s_blocks)),
        ("payload", true) => Rule::FilterByPayload(F::Static(s_payload)),
        ("packet", true) => Rule::Filter(F::Static(s_packet)),
        (_, true) => Rule::Ignored(F::Static(s_ignored)),
    }
}

pub fn rule_id(kind: &str) -> brec::RuleDefId {
    match kind {
        "blocks" => brec::RuleDefId::FilterByBlocks,
        "payload" => brec::RuleDefId::FilterByPayload,
        "packet" => brec::RuleDefId::Filter,
        _ => brec::RuleDefId::Ignored,
    }
}

/// bits: which of the three filters accept it
pub fn filterable(r: &mut Rng, id: u32, bits: u8, pl: usize) -> P {
    let mut blocks = vec![Block::BkT(BkT { id, tag: bits | (r.next() as u8 & 0xf8) })];
    for _ in 0..r.below(3) {
        let w = r.below(5);
        let at = r.below(blocks.len() + 1);
        blocks.insert(at, rnd_block(r, w));
    }
    if r.chance(1, 12) {
        blocks.clear();
    }
    let mut body = id.to_le_bytes().to_vec();
    body.insert(0, bits | (r.next() as u8 & 0xf8));
    let n = r.below(12);
    body.extend(r.bytes(n));
    let payload = match pl {
        0 => None,
        1 => Some(Payload::PlC(PlC { v: body })),
        2 => Some(Payload::Bytes(body)),
        _ => Some(Payload::PlB(PlB { id: u32::from_le_bytes([bits, 1, 2, 3]), name: "n".into(), data: body })),
    };
    P { blocks, payload }
}

/// hands over one batch per read
struct Batches(Rc<RefCell<VecDeque<Vec<u8>>>>);
impl Read for Batches {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut q = self.0.borrow_mut();
        let Some(b) = q.front_mut() else { return Ok(0) };
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        b.drain(..n);
        if b.is_empty() {
            q.pop_front();
        }
        Ok(n)
    }
}

#[derive(Default)]
struct Seen {
    got: Vec<Value>,
    bad: bool,
    why: String,
}

impl Seen {
    fn err(&mut self, e: String) {
        self.bad = true;
        self.why = e;
    }
}

trait Subject {
    fn add(&mut self, kind: &str, id: usize, fixed: bool) -> Result<(), brec::Error>;
    fn rem(&mut self, kind: &str);
    /// handles the packets; foreign bytes precede each of them
    fn batch(&mut self, pk: &[P], foreign: &[Vec<u8>], seen: &mut Seen);
    fn takes_foreign(&self) -> bool {
        false
    }
}

struct Streaming {
    rd: PacketBufReader<'static, Batches>,
    q: Rc<RefCell<VecDeque<Vec<u8>>>>,
}
impl Streaming {
    fn new() -> Self {
        let q: Rc<RefCell<VecDeque<Vec<u8>>>> = Rc::default();
        let src: &'static mut Batches = Box::leak(Box::new(Batches(q.clone())));
        Streaming { rd: PacketBufReader::new(src), q }
    }
}
impl Subject for Streaming {
    fn add(&mut self, kind: &str, id: usize, fixed: bool) -> Result<(), brec::Error> {
        self.rd.add_rule(rule(kind, id, fixed))
    }
    fn rem(&mut self, kind: &str) {
        self.rd.remove_rule(rule_id(kind))
    }
    fn batch(&mut self, pk: &[P], foreign: &[Vec<u8>], seen: &mut Seen) {
        let mut data = Vec::new();
        for (p, f) in pk.iter().zip(foreign) {
            data.extend(f);
            data.extend(p.bytes());
        }
        let budget = 10 * data.len() + 100;
        self.q.borrow_mut().push_back(data);
        let mut n = 0;
        let mut calls = 0;
        while n < pk.len() {
            calls += 1;
            if calls > budget {
                return seen.err("endless".into());
            }
            match self.rd.read() {
                Ok(NextPacket::Found(p)) => {
                    n += 1;
                    seen.got.push(pkt_json(&p));
                }
                Ok(NextPacket::Skipped) => n += 1,
                Ok(NextPacket::NoData) => return seen.err("no data".into()),
                Ok(_) => {}
                Err(e) => return seen.err(kind(&e)),
            }
        }
    }
    fn takes_foreign(&self) -> bool {
        true
    }
}

struct Direct(Rules<'static>);
impl Subject for Direct {
    fn add(&mut self, kind: &str, id: usize, fixed: bool) -> Result<(), brec::Error> {
        self.0.add_rule(rule(kind, id, fixed))
    }
    fn rem(&mut self, kind: &str) {
        self.0.remove_rule(rule_id(kind))
    }
    fn batch(&mut self, pk: &[P], _: &[Vec<u8>], seen: &mut Seen) {
        let mut data = Vec::new();
        let mut ends = Vec::new();
        for p in pk {
            data.extend(p.bytes());
            ends.push(data.len() as u64);
        }
        let mut c = Cursor::new(data);
        for e in ends {
            match Packet::filtered(&mut c, &self.0) {
                Ok(LookInStatus::Accepted(_, p)) => seen.got.push(pkt_json(&p)),
                Ok(LookInStatus::Denied(_)) => {}
                Ok(LookInStatus::NotEnoughData(_)) => return seen.err("more".into()),
                Err(e) => return seen.err(kind(&e)),
            }
            if c.position() != e {
                return seen.err("position".into());
            }
        }
    }
}

/// a storage with the packets of the batch, read by a filtered iterator
struct Stored {
    rd: Reader<'static, crate::io::Handle>,
    wr: Writer<'static, crate::io::Handle>,
    have: usize,
    range: bool,
}
impl Stored {
    fn new(range: bool) -> Self {
        let disk = Disk::default();
        let wr = Writer::new(disk.open()).unwrap();
        let rd = Reader::new(disk.open()).unwrap();
        Stored { rd, wr, have: 0, range }
    }
}
impl Subject for Stored {
    fn add(&mut self, kind: &str, id: usize, fixed: bool) -> Result<(), brec::Error> {
        self.rd.add_rule(rule(kind, id, fixed))
    }
    fn rem(&mut self, kind: &str) {
        self.rd.remove_rule(rule_id(kind))
    }
    fn batch(&mut self, pk: &[P], _: &[Vec<u8>], seen: &mut Seen) {
        for p in pk {
            if let Err(e) = self.wr.insert(p.packet()) {
                return seen.err(kind(&e));
            }
        }
        if let Err(e) = self.rd.reload() {
            return seen.err(kind(&e));
        }
        CALLS.with(|c| c.borrow_mut().clear());
        let mut put = |r: Result<Packet, brec::Error>| match r {
            Ok(p) => seen.got.push(pkt_json(&p)),
            Err(e) => {
                seen.bad = true;
                seen.why = kind(&e);
            }
        };
        if self.range {
            self.rd.range_filtered(self.have, pk.len()).take(2 * pk.len()).for_each(&mut put);
            self.have += pk.len();
        } else {
            self.rd.filtered().take(2 * (self.have + pk.len())).for_each(&mut put);
        }
    }
}

pub fn run(script: &str, out: &str, seed: u64) {
    let mut o = Out::create(out);
    for (n, hist) in read_lines(script).iter().enumerate() {
        for how in ["stream", "direct", "range", "stored"] {
            let mut r = Rng::new(seed ^ ((n as u64) << 16) ^ how.len() as u64);
            let mut events: Vec<Value> = Vec::new();
            CALLS.with(|c| c.borrow_mut().clear());
            IGNORED.with(|c| c.borrow_mut().clear());
            let ok = guarded(|| {
                let mut s: Box<dyn Subject> = match how {
                    "stream" => Box::new(Streaming::new()),
                    "direct" => Box::new(Direct(Rules::default())),
                    "range" => Box::new(Stored::new(true)),
                    _ => Box::new(Stored::new(false)),
                };
                let ops = hist.as_array().unwrap();
                let mut serial = 0u32;
                for (i, op) in ops.iter().enumerate() {
                    let k = op["kind"].as_str().unwrap();
                    if op["op"] == "add" {
                        let fixed = r.chance(1, 4);
                        let id = if fixed { STATIC } else { i + 1 };
                        let res = match s.add(k, id, fixed) {
                            Ok(()) => "ok",
                            Err(brec::Error::RuleDuplicate) => "dup",
                            Err(_) => "err",
                        };
                        events.push(json!({"op": "add", "kind": k, "id": id, "r": res}));
                    } else {
                        s.rem(k);
                        events.push(json!({"op": "rem", "kind": k}));
                    }
                    let last = i + 1 == ops.len();
                    if how == "stored" && !last {
                        continue;
                    }
                    let pk: Vec<P> = if last {
                        (0..16u8).map(|b| { serial += 1; let pl = if b < 8 { 0 } else { 1 + r.below(3) }; filterable(&mut r, serial, b & 7, pl) }).collect()
                    } else {
                        (0..2).map(|_| { serial += 1; let (b, pl) = (r.below(8) as u8, r.below(4)); filterable(&mut r, serial, b, pl) }).collect()
                    };
                    let foreign: Vec<Vec<u8>> = pk.iter().map(|_| if s.takes_foreign() && r.chance(1, 3) { (0..r.below(40)).map(|x| x as u8).collect() } else { vec![] }).collect();
                    let mut seen = Seen::default();
                    DECODED.with(|d| d.borrow_mut().clear());
                    s.batch(&pk, &foreign, &mut seen);
                    let calls = CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
                    let ig = IGNORED.with(|c| std::mem::take(&mut *c.borrow_mut()));
                    let dec = DECODED.with(|d| std::mem::take(&mut *d.borrow_mut()));
                    events.push(json!({"op": "batch", "pk": pk.iter().map(|p| json_of(&p.blocks, &p.payload)).collect::<Vec<_>>(),
                        "calls": calls, "got": seen.got, "bad": seen.bad, "why": seen.why,
                        "dec": dec.iter().map(|d| bytes(d)).collect::<Vec<_>>(),
                        "foreign": bytes(&foreign.concat()),
                        "ig": ig.iter().map(|(i, b)| json!({"id": i, "b": bytes(b)})).collect::<Vec<_>>()}));
                }
            });
            if ok.is_none() {
                events.push(json!({"op": "panic"}));
            }
            o.put(json!({"how": how, "o": events}));
        }
    }
    println!("{}", o.done());
}
