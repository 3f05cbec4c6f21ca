//! Sessions with the buffering reader adapter (spec: BufferTrace.tla).
use crate::io::{Give, Source};
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{BufRead, BufReader, ErrorKind, Read};
use std::rc::Rc;

fn plan(v: &Value) -> Vec<Give> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|g| match g.as_str().unwrap_or("9") {
                    "f" => Give::Fail(ErrorKind::WouldBlock),
                    n => Give::Bytes(n.parse().unwrap_or(9)),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn session<R: BufRead>(inner: &mut R, failed: Rc<Cell<usize>>, src: &[u8], ops: &[(String, usize)]) -> Vec<Value> {
    let mut r = BufferedReader::new(inner);
    let mut out = Vec::new();
    // bytes the last look ahead has shown and which were not handed out yet
    let mut seen = 0usize;
    let mut done = false;
    let mut i = 0;
    while !done {
        let (op, n) = match ops.get(i) {
            Some((op, n)) => (op.as_str(), *n),
            // in the end everything is read
            None if i > ops.len() + 4 * src.len() + 400 => break,
            None => ("read", 7),
        };
        i += 1;
        failed.set(0);
        let n = if op == "eat" { n.min(seen) } else { n };
        let (mut b, mut k) = (Vec::new(), 0usize);
        let res = match op {
            "look" => r.fill_buf().map(|s| b = s.to_vec()),
            "len" => r.len().map(|v| k = v),
            "blen" => r.buffer_len().map(|v| k = v),
            "empty" => r.is_empty().map(|v| k = v as usize),
            "refill" => r.refill(),
            "read" => {
                let mut buf = vec![0u8; n];
                r.read(&mut buf).map(|v| b = buf[..v.min(n)].to_vec())
            }
            _ => {
                r.consume(n);
                Ok(())
            }
        };
        if res.is_ok() {
            match op {
                "look" => seen = b.len(),
                "read" => seen = seen.saturating_sub(b.len()),
                "eat" => seen -= n,
                _ => {}
            }
        }
        done = i > ops.len() && res.is_ok() && b.is_empty();
        out.push(json!({"op": op, "n": n, "r": if res.is_ok() {"ok"} else {"err"}, "b": bytes(&b), "k": k,
                        "c": r.consumed(), "failed": failed.get()}));
    }
    out
}

fn run(how: &str, cap: usize, src: &[u8], plan: Vec<Give>, ops: &[(String, usize)]) -> Value {
    let o = guarded(|| {
        let source = Source::new(src.to_vec(), plan);
        let failed = source.failed.clone();
        match how {
            "slice" => session(&mut &src[..], failed, src, ops),
            "nested" => {
                let mut inner = BufReader::with_capacity(cap, source);
                let mut mid = BufferedReader::new(&mut inner);
                let _ = mid.refill();
                failed.set(0);
                session(&mut mid, failed, src, ops)
            }
            _ => session(&mut BufReader::with_capacity(cap, source), failed, src, ops),
        }
    });
    let o = o.unwrap_or_else(|| vec![json!({"op": "panic", "r": "panic"})]);
    json!({"how": how, "src": bytes(src), "o": o})
}

pub fn runs(script: &str, out: &str, seed: u64) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed ^ 0xb0f);
    let small: Vec<u8> = (10..16).collect();
    for s in read_lines(script) {
        let ops: Vec<(String, usize)> = s["o"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| (v["op"].as_str().unwrap().to_string(), v["n"].as_u64().unwrap() as usize))
            .collect();
        let cap = s["cap"].as_u64().unwrap() as usize;
        let src = match s["len"].as_u64() {
            Some(n) => r.bytes(n as usize),
            None => small.clone(),
        };
        let how = s["how"].as_str().unwrap_or("plain");
        o.put(run(how, cap, &src, plan(&s["plan"]), &ops));
    }
    o.done();
}
