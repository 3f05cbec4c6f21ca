//! Deterministic random numbers, JSON helpers, panic capture.
use serde_json::{json, Value};
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn beat() {
    BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// Ends the process with code 3 if no episode is completed for two minutes.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = BEAT.load(std::sync::atomic::Ordering::Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > 120 {
                eprintln!("no progress since episode {now}");
                std::process::exit(3);
            }
        }
    });
}

/// Runs `f`, turning a panic into `None`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    beat();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

pub fn silence_panics() {
    if std::env::var("BRECV_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub lines: usize,
}

impl Out {
    pub fn create(path: &str) -> Self {
        Out {
            w: std::io::BufWriter::new(std::fs::File::create(path).expect("create output")),
            lines: 0,
        }
    }
    pub fn put(&mut self, v: Value) {
        beat();
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn done(mut self) -> usize {
        self.w.flush().unwrap();
        self.lines
    }
}

pub fn read_lines(path: &str) -> Vec<Value> {
    let text = std::fs::read_to_string(path).expect("read input");
    text.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("json line"))
        .collect()
}

pub fn bytes(v: &[u8]) -> Value {
    json!(v.iter().map(|b| *b as u32).collect::<Vec<u32>>())
}

pub fn to_bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
        .unwrap_or_default()
}

/// name of an error, without its details
pub fn kind(e: &brec::Error) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric() && c != '_')
        .next()
        .unwrap_or("")
        .to_string()
}
