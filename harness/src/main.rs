mod buffer;
mod io;
mod item;
mod pkt;
mod rules;
mod stream;
mod types;
mod util;
mod wire;
mod write;

fn main() {
    util::silence_panics();
    util::watchdog();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false);
    let n = |i: usize| s(i).parse::<usize>().unwrap_or(1);
    match s(1) {
        "rt" => wire::rt(s(2), s(3), seed, n(4)),
        "enc" => wire::enc(s(2), s(3), seed, n(4)),
        "dmg" => wire::dmg(s(2), seed, thorough, false),
        "rej" => wire::dmg(s(2), seed, thorough, true),
        "pre" => wire::pre(s(2), seed, thorough),
        "lim" => wire::lim(s(2), seed, thorough),
        "stream" => stream::sessions(s(2), s(3), seed, s(4)),
        "rules" => rules::run(s(2), s(3), seed),
        "buffer" => buffer::runs(s(2), s(3), seed),
        "write" => write::runs(s(2), s(3), seed, n(4)),
        other => {
            eprintln!("unknown command {other}");
            std::process::exit(64);
        }
    }
}
