//! Writing to outputs with a prescribed behaviour (spec: WriteTrace.tla).
use crate::io::{Sink, Take};
use crate::item::Item;
use crate::pkt::*;
use crate::types::*;
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};

fn writers(it: &Item) -> &'static [&'static str] {
    match it {
        Item::Hdr(_) => &["all", "one"],
        Item::Blk(_) => &["all", "one", "vall", "vone", "s.all", "s.one", "s.vall", "s.vone"],
        _ => &["all", "one", "vall", "vone", "sall"],
    }
}

fn one(r: std::io::Result<usize>) -> std::io::Result<Option<usize>> {
    r.map(Some)
}
fn all(r: std::io::Result<()>) -> std::io::Result<Option<usize>> {
    r.map(|_| None)
}

macro_rules! block_struct {
    ($b:expr, $how:expr, $s:expr; $($T:ident),*) => {
        match $b {
            $(Block::$T(b) => match $how {
                "s.all" => all(WriteTo::write_all(b, $s)),
                "s.one" => one(WriteTo::write(b, $s)),
                "s.vall" => all(WriteVectoredTo::write_vectored_all(b, $s)),
                _ => one(WriteVectoredTo::write_vectored(b, $s)),
            })*
        }
    };
}

fn write(it: &Item, how: &str, s: &mut Sink) -> std::io::Result<Option<usize>> {
    match it {
        Item::Pkt(p) => {
            let mut p = p.packet();
            match how {
                "all" => all(WriteMutTo::write_all(&mut p, s)),
                "one" => one(WriteMutTo::write(&mut p, s)),
                "vall" => all(WriteVectoredMutTo::write_vectored_all(&mut p, s)),
                "sall" => all(p.slices()?.write_vectored_all(s)),
                _ => one(WriteVectoredMutTo::write_vectored(&mut p, s)),
            }
        }
        Item::Blk(b) => match how {
            "all" => all(WriteTo::write_all(b, s)),
            "one" => one(WriteTo::write(b, s)),
            "vall" => all(WriteVectoredTo::write_vectored_all(b, s)),
            "vone" => one(WriteVectoredTo::write_vectored(b, s)),
            how => block_struct!(b, how, s; BkU, BkI, BkF, BkM, BkN, BkT),
        },
        Item::Pl(p) => {
            let mut p = p.clone();
            match how {
                "all" => all(WriteMutTo::write_all(&mut p, s)),
                "one" => one(WriteMutTo::write(&mut p, s)),
                "vall" => all(WriteVectoredMutTo::write_vectored_all(&mut p, s)),
                "sall" => all(WriteVectoredMutTo::slices(&mut p)?.write_vectored_all(s)),
                _ => one(WriteVectoredMutTo::write_vectored(&mut p, s)),
            }
        }
        Item::Hdr(p) => {
            let h = PacketHeader::new(&p.blocks, p.payload.as_ref())?;
            match how {
                "all" => all(WriteTo::write_all(&h, s)),
                _ => one(WriteTo::write(&h, s)),
            }
        }
        _ => unreachable!(),
    }
}

fn run(it: &Item, how: &str, plan: Vec<Take>, cycle: bool, first_only: bool) -> Value {
    let mut s = Sink::new(plan, cycle);
    s.first_only = first_only;
    let r = guarded(|| write(it, how, &mut s));
    let mut out = match r {
        None => json!({"k": "panic", "n": 0}),
        Some(Err(_)) => json!({"k": "err", "n": 0}),
        Some(Ok(n)) => json!({"k": "ok", "n": n.unwrap_or(0)}),
    };
    out["all"] = json!(how.ends_with("all"));
    out["w"] = json!(how);
    out["got"] = bytes(&s.got);
    out["fail"] = json!(s.fail);
    out["intr"] = json!(s.intr);
    out["zero"] = json!(s.zero);
    out
}

fn take(t: &str) -> Take {
    match t {
        "i" => Take::Intr,
        "f" => Take::Fail,
        "a" => Take::Bytes(usize::MAX),
        n => Take::Bytes(n.parse().unwrap()),
    }
}

fn item(r: &mut Rng, big: bool) -> Item {
    match r.below(8) {
        0 => Item::Blk({ let w = r.below(6); rnd_block(r, w) }),
        1 => Item::Pl({ let w = r.below(5); rnd_payload(r, w, 30) }),
        2 => Item::Hdr(rnd_p(r, 2, 9)),
        _ if big => Item::Pkt(P { blocks: (0..r.range(120, 255)).map(|_| { let w = *r.pick(&[3, 3, 4, 5]); rnd_block(r, w) }).collect(), payload: Some(rnd_payload(r, 0, 2000)) }),
        _ => Item::Pkt(rnd_p(r, 3, 30)),
    }
}

pub fn runs(script: &str, out: &str, seed: u64, rounds: usize) {
    let mut o = Out::create(out);
    let plans = read_lines(script);
    for round in 0..rounds {
        for (n, s) in plans.iter().enumerate() {
            let mut r = Rng::new(seed ^ ((n as u64) << 16) ^ ((round as u64) << 44));
            let it = item(&mut r, n % 40 == 7);
            let plan: Vec<Take> = s["plan"].as_array().unwrap().iter().map(|t| take(t.as_str().unwrap())).collect();
            // the same behaviour right away, and after a number of bytes has been accepted
            let lead = r.below(it.bytes().len() + 1);
            let mut late = vec![Take::Bytes(lead.max(1))];
            late.extend(&plan);
            let cycle = s["cycle"] == true;
            let mut res = Vec::new();
            for how in writers(&it) {
                let fo = r.chance(1, 3);
                res.push(run(&it, how, plan.clone(), cycle, fo));
                res.push(run(&it, how, late.clone(), cycle, fo));
            }
            o.put(json!({"cls": it.class(), "v": it.json(), "runs": res}));
        }
    }
    println!("{}", o.done());
}
