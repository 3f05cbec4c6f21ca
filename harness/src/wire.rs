//! Episodes of writing and reading single items (spec: WireTrace.tla).
use crate::io::Disk;
use crate::item::{self, Cur, Item};
use crate::pkt::*;
use crate::types::*;
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};
use std::io::Cursor;

pub const BLOCKS: [&str; 6] = ["BkU", "BkI", "BkF", "BkM", "BkN", "BkT"];
pub const PAYLOADS: [&str; 5] = ["Bytes", "String", "PlB", "PlN", "PlC"];

pub fn block_of(r: &mut Rng, t: &str) -> Block {
    let i = BLOCKS.iter().position(|x| *x == t).unwrap();
    rnd_block(r, i)
}

pub fn payload_of(r: &mut Rng, t: &str, max: usize) -> Payload {
    let i = PAYLOADS.iter().position(|x| *x == t).unwrap();
    rnd_payload(r, i, max)
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}

pub fn shape(r: &mut Rng, v: &Value, max: usize) -> P {
    let blocks = strs(&v["b"]).iter().map(|t| block_of(r, t)).collect();
    let payload = strs(&v["p"]).first().map(|t| payload_of(r, t, max));
    P { blocks, payload }
}

fn rnd_item(r: &mut Rng, class: &str, t: &str) -> Item {
    match class {
        "pkt" => Item::Pkt(rnd_p(r, 4, 40)),
        "blk" => Item::Blk(if t.is_empty() { let i = r.below(6); rnd_block(r, i) } else { block_of(r, t) }),
        "pl" => Item::Pl(if t.is_empty() { let i = r.below(5); rnd_payload(r, i, 40) } else { payload_of(r, t, 40) }),
        "hdr" => Item::Hdr(rnd_p(r, 4, 40)),
        _ => Item::PlHdr(if t.is_empty() { let i = r.below(5); rnd_payload(r, i, 40) } else { payload_of(r, t, 40) }),
    }
}

/// P01: replays sessions generated by TLC: items written back to back and the reader used for each
pub fn rt(script: &str, out: &str, seed: u64, rounds: usize) {
    let mut o = Out::create(out);
    let sessions = read_lines(script);
    for round in 0..rounds {
        for (n, s) in sessions.iter().enumerate() {
            let mut r = Rng::new(seed ^ ((n as u64) << 20) ^ ((round as u64) << 50));
            let class = s["cls"].as_str().unwrap();
            let rd = strs(&s["rd"]);
            let mut items = Vec::new();
            let mut lens = Vec::new();
            let start = r.below(4);
            let mut data = r.bytes(start);
            for i in 0..rd.len() {
                let first = i == 0;
                let it = if class == "pkt" && first {
                    Item::Pkt(shape(&mut r, &s["shape"], 60))
                } else {
                    rnd_item(&mut r, class, if first { s["t"].as_str().unwrap_or("") } else { "" })
                };
                let b = it.bytes();
                lens.push(b.len());
                data.extend(b);
                items.push(it);
            }
            let tail = if r.chance(1, 2) { r.below(40) } else { 0 };
            data.extend(r.bytes(tail));
            let mut c: Cur = Cursor::new(data.clone());
            c.set_position(start as u64);
            let outs: Vec<Value> = rd
                .iter()
                .zip(&items)
                .map(|(how, it)| item::read(class, &item::type_of(it), how, &mut c))
                .collect();
            o.put(json!({"ev": "rt", "cls": class, "items": items.iter().map(|i| i.json()).collect::<Vec<_>>(), "lens": lens, "start": start, "rd": rd, "o": outs}));
            if class == "pkt" && n % 5 == 0 {
                o.put(json!({"ev": "srt", "items": items.iter().map(|i| i.json()).collect::<Vec<_>>(),
                    "o": item::stream_all(&data[start..data.len() - tail])}));
            }
        }
    }
    // large payloads and many blocks
    let mut r = Rng::new(seed ^ 77);
    for i in 0..(4 + 4 * rounds) {
        let p = if i % 2 == 0 {
            P { blocks: vec![rnd_block(&mut r, 5)], payload: Some({ let w = r.below(5); rnd_payload(&mut r, w, 30_000) }) }
        } else {
            P { blocks: (0..r.range(100, 255)).map(|_| { let w = r.below(6); rnd_block(&mut r, w) }).collect(), payload: None }
        };
        let it = Item::Pkt(p);
        let q = Item::Pkt(rnd_p(&mut r, 3, 30));
        let mut data = it.bytes();
        let lens = vec![data.len(), q.bytes().len()];
        data.extend(q.bytes());
        let js = vec![it.json(), q.json()];
        for how in it.readers() {
            let mut c: Cur = Cursor::new(data.clone());
            let outs = vec![item::read("pkt", "", how, &mut c), item::read("pkt", "", how, &mut c)];
            o.put(json!({"ev": "rt", "cls": "pkt", "items": js, "lens": lens, "start": 0, "rd": [how, how], "o": outs}));
        }
        o.put(json!({"ev": "srt", "items": js, "o": item::stream_all(&data)}));
    }
    println!("{}", o.done());
}

fn slices_bytes(s: IoSlices<'_>) -> Vec<u8> {
    s.get().iter().flat_map(|b| b.to_vec()).collect()
}

macro_rules! struct_outs {
    ($b:expr; $($T:ident),*) => {
        match $b {
            $(Block::$T(b) => {
                let mut a = Vec::new();
                WriteTo::write_all(b, &mut a).unwrap();
                let mut w = Vec::new();
                WriteTo::write(b, &mut w).unwrap();
                let mut v = Vec::new();
                WriteVectoredTo::write_vectored_all(b, &mut v).unwrap();
                let mut w2 = Vec::new();
                WriteVectoredTo::write_vectored(b, &mut w2).unwrap();
                let s = slices_bytes(WriteVectoredTo::slices(b).unwrap());
                (vec![("s.write_all", a), ("s.write", w), ("s.vall", v), ("s.v", w2), ("s.slices", s)],
                 vec![("total", <$T as StaticSize>::ssize())])
            })*
        }
    };
}

/// every way of writing an item, and every size it advertises
fn writes(it: &Item) -> (Vec<(&'static str, Vec<u8>)>, Vec<(&'static str, u64)>) {
    let mut outs = Vec::new();
    let mut sizes: Vec<(&'static str, u64)> = Vec::new();
    match it {
        Item::Pkt(p) => {
            let mut a = Vec::new();
            p.packet().write_all(&mut a).unwrap();
            let mut b = Vec::new();
            WriteMutTo::write(&mut p.packet(), &mut b).unwrap();
            let mut c = Vec::new();
            p.packet().write_vectored_all(&mut c).unwrap();
            let mut d = Vec::new();
            p.packet().write_vectored(&mut d).unwrap();
            let e = slices_bytes(p.packet().slices().unwrap());
            outs.extend([("write_all", a), ("write", b), ("vall", c), ("v", d), ("slices", e)]);
            let h = PacketHeader::new(&p.blocks, p.payload.as_ref()).unwrap();
            sizes.push(("body", h.size));
            sizes.push(("blocks", h.blocks_len));
            sizes.push(("blocks", p.blocks.iter().map(|b| b.size()).sum()));
            if let Some(pl) = &p.payload {
                sizes.push(("payload", PacketHeader::payload_size(pl).unwrap()));
            }
        }
        Item::Blk(b) => {
            let mut a = Vec::new();
            WriteTo::write_all(b, &mut a).unwrap();
            let mut w = Vec::new();
            WriteTo::write(b, &mut w).unwrap();
            let mut v = Vec::new();
            b.write_vectored_all(&mut v).unwrap();
            let mut w2 = Vec::new();
            b.write_vectored(&mut w2).unwrap();
            outs.extend([("write_all", a), ("write", w), ("vall", v), ("v", w2), ("slices", slices_bytes(b.slices().unwrap()))]);
            sizes.push(("total", b.size()));
            let (o, s) = struct_outs!(b; BkU, BkI, BkF, BkM, BkN, BkT);
            outs.extend(o);
            sizes.extend(s);
        }
        Item::Pl(p) => {
            let mut p = p.clone();
            let mut a = Vec::new();
            WriteMutTo::write_all(&mut p, &mut a).unwrap();
            let mut w = Vec::new();
            WriteMutTo::write(&mut p, &mut w).unwrap();
            let mut v = Vec::new();
            WriteVectoredMutTo::write_vectored_all(&mut p, &mut v).unwrap();
            let mut w2 = Vec::new();
            WriteVectoredMutTo::write_vectored(&mut p, &mut w2).unwrap();
            let s = slices_bytes(WriteVectoredMutTo::slices(&mut p).unwrap());
            outs.extend([("write_all", a), ("write", w), ("vall", v), ("v", w2), ("slices", s)]);
            sizes.push(("plbody", PayloadSize::size(&p).unwrap()));
            sizes.push(("plhdr", PayloadHeader::ssize(&p).unwrap() as u64));
            sizes.push(("plhdr", PayloadHeader::new(&p).unwrap().size() as u64));
            sizes.push(("total", PacketHeader::payload_size(&p).unwrap()));
        }
        Item::Hdr(p) => {
            let h = PacketHeader::new(&p.blocks, p.payload.as_ref()).unwrap();
            let mut a = Vec::new();
            WriteTo::write_all(&h, &mut a).unwrap();
            let mut w = Vec::new();
            WriteTo::write(&h, &mut w).unwrap();
            outs.extend([("write_all", a), ("write", w)]);
            sizes.push(("hdr", PacketHeader::ssize()));
        }
        Item::PlHdr(p) => {
            let h = PayloadHeader::new(p).unwrap();
            outs.push(("as_vec", h.as_vec()));
            sizes.push(("total", h.size() as u64));
        }
        Item::Slot(_) => {}
    }
    (outs, sizes)
}

/// P02
pub fn enc(script: &str, out: &str, seed: u64, rounds: usize) {
    let mut o = Out::create(out);
    let mut put = |it: &Item| {
        let r = guarded(|| writes(it));
        match r {
            Some((outs, sizes)) => o.put(json!({"ev": "enc", "cls": it.class(), "v": it.json(),
                "outs": outs.iter().map(|(n, b)| json!({"w": n, "bytes": bytes(b)})).collect::<Vec<_>>(),
                "sizes": sizes.iter().map(|(n, s)| json!({"what": n, "n": s})).collect::<Vec<_>>()})),
            None => o.put(json!({"ev": "enc", "cls": it.class(), "v": it.json(), "outs": [{"w": "panic", "bytes": []}], "sizes": []})),
        }
    };
    for round in 0..rounds {
        let mut r = Rng::new(seed ^ 0xE2C0 ^ ((round as u64) << 40));
        for s in read_lines(script) {
            if s["cls"] == "pkt" {
                put(&Item::Pkt(shape(&mut r, &s["shape"], 40)));
            }
        }
        for _ in 0..8 {
            for t in BLOCKS {
                put(&Item::Blk(block_of(&mut r, t)));
            }
            for t in PAYLOADS {
                let p = payload_of(&mut r, t, 60);
                put(&Item::PlHdr(p.clone()));
                put(&Item::Pl(p));
            }
            put(&Item::Hdr(rnd_p(&mut r, 6, 50)));
        }
        // lengths around the borders of one byte and two byte numbers
        for n in [0usize, 1, 255, 256, 257, 65535, 65536, 65537] {
            for t in ["Bytes", "PlC", "PlB"] {
                if n > 60000 && t != "Bytes" && round == 0 {
                    continue;
                }
                let b = r.bytes(n);
                let p = match t {
                    "Bytes" => Payload::Bytes(b),
                    "PlC" => Payload::PlC(PlC { v: b }),
                    _ => Payload::PlB(PlB { id: n as u32, name: "x".repeat(n % 300), data: b }),
                };
                put(&Item::Pkt(P { blocks: vec![rnd_block(&mut r, 5)], payload: Some(p) }));
            }
        }
        for n in [254usize, 255] {
            put(&Item::Pkt(P { blocks: (0..n).map(|i| rnd_block(&mut r, i % 6)).collect(), payload: None }));
        }
    }
    for (i, n) in [1usize, 2, 7, 499, 500, 501, 503].iter().enumerate() {
        let mut r = Rng::new(seed ^ 0x1A ^ ((i as u64) << 30));
        let ps: Vec<P> = (0..*n)
            .map(|i| P { blocks: vec![Block::BkT(BkT { id: i as u32, tag: 7 })], payload: if i % 97 == 3 { Some(rnd_payload(&mut r, i % 5, 300)) } else { None } })
            .collect();
        let disk = Disk::default();
        let okay = guarded(|| {
            let mut w: Writer<_> = Writer::new(disk.open()).unwrap();
            for p in &ps {
                w.insert(p.packet()).unwrap();
            }
        });
        let file = if okay.is_some() { disk.image() } else { vec![] };
        o.put(json!({"ev": "layout", "pk": ps.iter().map(|p| json_of(&p.blocks, &p.payload)).collect::<Vec<_>>(), "file": bytes(&file)}));
    }
    println!("{}", o.done());
}

fn sample_items(r: &mut Rng, extra: usize) -> Vec<Item> {
    let mut v = Vec::new();
    for t in BLOCKS {
        v.push(Item::Blk(block_of(r, t)));
        v.push(Item::Pkt(P { blocks: vec![block_of(r, t)], payload: None }));
    }
    for t in PAYLOADS {
        let p = loop {
            let p = payload_of(r, t, 24);
            if PayloadSize::size(&p).unwrap() > 2 {
                break p;
            }
        };
        v.push(Item::Pl(p.clone()));
        v.push(Item::Pkt(P { blocks: vec![], payload: Some(p.clone()) }));
        v.push(Item::Pkt(P { blocks: vec![rnd_block(r, 5), rnd_block(r, 4)], payload: Some(p) }));
    }
    v.push(Item::Pl(Payload::Bytes(vec![])));
    v.push(Item::Pkt(P { blocks: vec![], payload: Some(Payload::String(String::new())) }));
    v.push(Item::Pkt(P { blocks: vec![], payload: None }));
    v.push(Item::Hdr(rnd_p(r, 4, 40)));
    v.push(Item::Hdr(P { blocks: vec![], payload: None }));
    for _ in 0..extra {
        v.push(Item::Pkt(rnd_p(r, 5, 40)));
    }
    v
}

/// P03 (damage) and the positions after rejection for P04
pub fn dmg(out: &str, seed: u64, thorough: bool, rejections: bool) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed ^ 0xDA);
    let mut items = sample_items(&mut r, if thorough { 30 } else { 6 });
    if rejections {
        items.extend(PAYLOADS.iter().map(|t| Item::PlHdr(payload_of(&mut r, t, 20))));
        items.push(Item::Slot(3));
    }
    for it in &items {
        let data = it.bytes();
        // (first, last, altered bytes)
        let mut cases: Vec<(usize, usize, Vec<u8>)> = Vec::new();
        for i in 0..data.len() {
            let mut masks: Vec<u8> = if thorough { (1..=255).collect() } else { (0..8).map(|b| 1 << b).chain([0xFF]).collect() };
            if !thorough {
                masks.push((r.next() as u8) | 1);
            }
            // small numbers: lengths and counts
            for m in masks {
                let mut d = data.clone();
                d[i] ^= m;
                cases.push((i, i, d));
            }
            if it.class() == "slot" {
                cases.retain(|c| c.0 != i || i % 8 == 0);
            }
            for v in [0u8, 1, 2, 4, 8, 16, 32, 64, 128, 255] {
                if v != data[i] && it.class() != "slot" {
                    let mut d = data.clone();
                    d[i] = v;
                    cases.push((i, i, d));
                }
            }
        }
        for _ in 0..(if thorough { 2000 } else { 150 }) {
            // burst of up to 32 bits
            let bits = data.len() * 8;
            let len = r.range(2, 32).min(bits);
            let from = r.below(bits - len + 1);
            let mut d = data.clone();
            for b in from..from + len {
                if b == from || b == from + len - 1 || r.chance(1, 2) {
                    d[b / 8] ^= 1 << (b % 8);
                }
            }
            cases.push((from / 8, (from + len - 1) / 8, d));
        }
        let mut how: Vec<&str> = if rejections { it.partial().iter().filter(|h| h.ends_with("try")).copied().collect() } else { it.readers().to_vec() };
        if it.class() == "pl" && rejections {
            how = vec!["e.try", "s.try"];
        }
        if it.class() == "pkt" && !rejections {
            how.push("stream");
        }
        // two bytes behind the item, and what follows it
        let tail = if rejections { vec![] } else { P { blocks: vec![Block::BkT(BkT { id: 9, tag: 9 })], payload: None }.bytes() };
        for h in how {
            let mut oks = Vec::new();
            let mut errs = 0;
            let mut rej = Vec::new();
            for (n, (first, last, d)) in cases.iter().enumerate() {
                if h == "stream" {
                    if !thorough && n % 4 != 0 {
                        errs += 1;
                        continue;
                    }
                    let found = item::stream_all(d);
                    let good: Vec<&Value> = found.iter().filter(|f| f["k"] != "err").collect();
                    if good.is_empty() {
                        errs += 1;
                    } else {
                        let mut g = if good.len() > 1 { json!({"k": "several"}) } else { good[0].clone() };
                        g["first"] = json!(first + 1);
                        g["last"] = json!(last + 1);
                        oks.push(g);
                    }
                    continue;
                }
                let start = if rejections { 3usize } else { 0 };
                let mut all = vec![5u8; start];
                all.extend_from_slice(d);
                all.extend_from_slice(&tail);
                let mut c: Cur = Cursor::new(all);
                c.set_position(start as u64);
                let rj_payload = rejections && it.class() == "pl";
                if rj_payload {
                    // position is judged from behind the payload header
                    let hl = match <PayloadHeader as ReadFrom>::read(&mut c) {
                        Ok(_) => c.position(),
                        Err(_) => continue,
                    };
                    c.set_position(start as u64);
                    let mut g = item::read(it.class(), &item::type_of(it), h, &mut c);
                    if g["k"] != "ok" {
                        g["pos"] = json!(c.position() + start as u64 - hl);
                        rej.push(g);
                    }
                    continue;
                }
                let mut g = item::read(it.class(), &item::type_of(it), h, &mut c);
                if rejections {
                    if g["k"] != "ok" {
                        rej.push(g);
                    }
                    continue;
                }
                if g["k"] == "err" || g["k"] == "more" {
                    errs += 1;
                } else {
                    g["first"] = json!(first + 1);
                    g["last"] = json!(last + 1);
                    oks.push(g);
                }
            }
            if rejections {
                o.put(json!({"ev": "rej", "cls": it.class(), "r": h, "start": 3, "outs": rej}));
            } else {
                o.put(json!({"ev": "dmg", "cls": it.class(), "r": h, "v": it.json(), "tried": cases.len(), "errs": errs, "oks": oks}));
            }
        }
    }
    println!("{}", o.done());
}

/// P04
pub fn pre(out: &str, seed: u64, thorough: bool) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed ^ 0x9E);
    let mut items = sample_items(&mut r, if thorough { 60 } else { 12 });
    for t in PAYLOADS {
        items.push(Item::PlHdr(payload_of(&mut r, t, 20)));
    }
    items.push(Item::Pkt(P { blocks: (0..40).map(|i| rnd_block(&mut r, i % 6)).collect(), payload: Some(rnd_payload(&mut r, 2, 500)) }));
    items.extend([1usize, 2, 499, 500].map(Item::Slot));
    for it in &items {
        let data = it.bytes();
        let t = item::type_of(it);
        for how in it.partial() {
            for start in [0usize, 5] {
                let mut all = vec![7u8; start];
                all.extend_from_slice(&data);
                let cuts: Vec<Value> = (0..data.len())
                    .map(|c| {
                        let mut cur: Cur = Cursor::new(all[..start + c].to_vec());
                        cur.set_position(start as u64);
                        item::read(it.class(), &t, how, &mut cur)
                    })
                    .collect();
                o.put(json!({"ev": "pre", "cls": it.class(), "r": how, "start": start, "len": data.len(), "cuts": cuts}));
                let from: Vec<usize> = if thorough { (0..data.len()).collect() } else { vec![0, 1, 3, 4, 8, 20, 29, data.len() - 1] };
                let from = if it.class() == "slot" { vec![0, 8, 15, 16, 17, 100, 4015, 4016, 4019] } else { from };
                for have in from {
                    if have >= data.len() {
                        continue;
                    }
                    let mut have = have;
                    let mut steps = Vec::new();
                    for _ in 0..60 {
                        let mut cur: Cur = Cursor::new(all[..(start + have).min(all.len())].to_vec());
                        cur.set_position(start as u64);
                        let mut g = item::read(it.class(), &t, how, &mut cur);
                        g["have"] = json!(have);
                        let n = g["n"].as_u64().unwrap_or(0) as usize;
                        let go = g["k"] == "more" && n > 0 && have < data.len();
                        steps.push(g);
                        if !go {
                            break;
                        }
                        have += n;
                    }
                    o.put(json!({"ev": "grow", "cls": it.class(), "r": how, "start": start, "len": data.len(), "v": it.json(), "steps": steps}));
                }
            }
        }
    }
    println!("{}", o.done());
}

/// P18
pub fn lim(out: &str, seed: u64, thorough: bool) {
    let mut o = Out::create(out);
    let mut counts = vec![0usize, 1, 2, 128, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513];
    if thorough {
        counts = (0..=10).chain(120..=136).chain(240..=280).chain(500..=520).chain([767, 768, 1000, 1024, 2000, 65535, 65536]).collect();
    }
    for n in counts {
        for variant in 0..(if thorough { 8 } else { 4 }) {
            let mut r = Rng::new(seed ^ ((n as u64) << 16) ^ variant);
            let same = variant % 2 == 0;
            let blocks: Vec<Block> = (0..n).map(|i| if same { Block::BkT(BkT { id: i as u32, tag: 1 }) } else { rnd_block(&mut r, i % 6) }).collect();
            let payload = if variant / 2 % 2 == 0 { None } else { Some(rnd_payload(&mut r, (n + variant as usize) % 5, 20)) };
            let p = P { blocks, payload };
            let want = json_of(&p.blocks, &p.payload);
            let data = p.bytes();
            for how in Item::Pkt(p.clone()).readers() {
                let mut c: Cur = Cursor::new(data.clone());
                let mut g = item::read("pkt", "", how, &mut c);
                if g["k"] == "ok" {
                    let same = g["v"] == want;
                    g = json!({"k": "ok", "n": g["v"]["b"].as_array().unwrap().len(), "same": same});
                }
                o.put(json!({"ev": "lim", "n": n, "r": how, "variant": variant, "o": g}));
            }
            let before = P { blocks: vec![Block::BkT(BkT { id: 1, tag: 2 })], payload: None };
            let after = P { blocks: vec![Block::BkT(BkT { id: 2, tag: 3 })], payload: Some(Payload::Bytes(vec![1, 2, 3])) };
            let name = |g: &Value, list: &[(&str, Value)]| -> String {
                if g["k"] == "ok" {
                    list.iter().find(|(_, v)| *v == g["v"]).map(|(n, _)| n.to_string()).unwrap_or("other".into())
                } else {
                    g["e"].as_str().or(g["k"].as_str()).unwrap().to_string()
                }
            };
            let mut known = vec![
                ("before", json_of(&before.blocks, &before.payload)),
                ("after", json_of(&after.blocks, &after.payload)),
                ("it", want.clone()),
            ];
            if known[2].1 == known[0].1 {
                known.remove(2);
                continue;
            }
            let mut all = before.bytes();
            all.extend(&data);
            all.extend(after.bytes());
            let seq: Vec<String> = item::stream_all(&all).iter().map(|g| name(g, &known)).collect();
            o.put(json!({"ev": "limstream", "n": n, "r": "stream", "o": seq}));
            // the same three in a storage, by index and by iteration
            let disk = Disk::default();
            let mut outs = vec![vec![], vec![], vec![]];
            let fine = guarded(|| {
                let mut w: Writer<_> = Writer::new(disk.open()).unwrap();
                for x in [&before, &p, &after] {
                    w.insert(x.packet()).unwrap();
                }
                let mut rd: Reader<_> = Reader::new(disk.open()).unwrap();
                let v = |r: Result<Packet, brec::Error>| match r {
                    Ok(p) => item::ok(pkt_json(&p)),
                    Err(e) => item::err(e),
                };
                for i in 0..3 {
                    let g = v(rd.nth(i).map(|p| p.unwrap()));
                    outs[0].push(name(&g, &known));
                }
                outs[1] = rd.iter().take(8).map(|g| name(&v(g), &known)).collect();
                outs[2] = rd.filtered().take(8).map(|g| name(&v(g), &known)).collect();
            });
            if fine.is_none() {
                outs[0].push("panic".into());
            }
            for (how, seq) in ["nth", "iter", "filtered"].iter().zip(outs) {
                o.put(json!({"ev": "limstream", "n": n, "r": how, "o": seq}));
            }
        }
    }
    println!("{}", o.done());
}
