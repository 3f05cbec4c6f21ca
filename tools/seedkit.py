"""Writes and examines planted bugs (seeded/<id>/).  Not used by any check.

    seedkit.py make            writes seeded/* from tools/seeds/*.py
    seedkit.py verify ID...    builds, tests, demonstrates the change in a scratch copy of /repo
    seedkit.py catch ID...     applies it to /repo, runs the property's check, undoes it
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")

PRELUDE = r'''use brec::prelude::*;

#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BlkA { pub a: u32, pub b: u64, pub c: [u8; 8] }

#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BlkB { pub n: u16, pub f: bool, pub x: f64 }

#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
pub struct PlX { pub s: String, pub v: Vec<u8> }

brec::generate!();

#[allow(dead_code)]
fn pk(n: u32, payload: Option<&str>) -> Packet {
    let mut blocks = vec![Block::BlkA(BlkA { a: n, b: n as u64 * 3, c: [n as u8; 8] })];
    if n % 2 == 1 { blocks.push(Block::BlkB(BlkB { n: n as u16, f: n % 3 == 0, x: n as f64 / 4.0 })); }
    Packet::new(blocks, payload.map(|s| Payload::PlX(PlX { s: s.to_string(), v: vec![n as u8; n as usize % 9] })))
}
#[allow(dead_code)]
fn enc(p: &mut Packet) -> Vec<u8> { let mut v = Vec::new(); p.write_all(&mut v).unwrap(); v }
#[allow(dead_code)]
fn same(a: &Packet, b: &Packet) -> bool { format!("{:?}{:?}", a.blocks, a.payload.is_some()) == format!("{:?}{:?}", b.blocks, b.payload.is_some()) && {
    let x = match &a.payload { Some(Payload::PlX(p)) => Some(p.clone()), _ => None };
    let y = match &b.payload { Some(Payload::PlX(p)) => Some(p.clone()), _ => None };
    x == y } }
'''

DEMO = r'''#!/bin/bash
# exit 0: behaves as it should; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER=
@FLAGS@
mkdir -p "$t/src" "$t/tmp"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/demo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "brecv"
version = "0.1.0"
edition = "2021"
build = "build.rs"
[workspace]
[dependencies]
brec = { path = "$repo/brec", features = ["bincode", "locked_storage"] }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
[build-dependencies]
brec = { path = "$repo/brec", features = ["build"] }
EOF
echo 'fn main() { brec::build_setup(); }' > "$t/build.rs"
cd "$t" || exit 2
cargo build --offline --quiet 2> "$t/build.log" || { tail -30 "$t/build.log"; exit 2; }
TMPDIR="$t/tmp" timeout 200 "$t/target/debug/brecv"
'''


def seeds():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def make(only=None):
    wt = tempfile.mkdtemp(prefix="seedmk-", dir="/tmp")
    src = os.path.join(wt, "r")
    subprocess.run(["git", "clone", "-q", "/repo", src], check=True)
    try:
        for s in seeds():
            if only and s["id"] not in only:
                continue
            for f, a, b in s["edits"]:
                p = os.path.join(src, f)
                t = open(p).read()
                bl = subprocess.run(["git", "-C", src, "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
                if a in t and t == subprocess.run(["git", "-C", src, "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True).stdout:
                    import difflib
                    n0 = t[:t.index(a)].count("\n")
                    la, lb = a.split("\n"), b.split("\n")
                    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, la, lb, False).get_opcodes():
                        if op in ("replace", "delete"):
                            for k in range(i1, i2):
                                if n0 + k < len(bl) and not bl[n0 + k].startswith("^") and la[k].strip():
                                    print("  note", s["id"], "touches a line of an own commit:", bl[n0 + k][:110])
                assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            d = os.path.join(SEEDED, s["id"])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "-C", src, "diff"], stdout=subprocess.PIPE, text=True).stdout
            subprocess.run(["git", "-C", src, "checkout", "-q", "--", "."], check=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.rs"), "w").write((PRELUDE if s.get("prelude", True) else "") + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FLAGS@", s.get("flags", "unset RUSTFLAGS")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            shutil.copy(os.path.join(ROOT, "harness", "Cargo.lock"), os.path.join(d, "demo.lock"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(wt)


def verify(ids):
    """Needs /repo to be free: /opt/vp/*.sh work on /repo itself, so the change is applied there and undone."""
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = os.path.join(SEEDED, i)
        run = lambda *c: subprocess.run(c, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        a = run("bash", os.path.join(d, "demo.sh"))
        print(i, "demo on unchanged tree:", a.returncode, a.stdout[-300:] if a.returncode else "")
        r = run("git", "apply", os.path.join(d, "patch.diff"))
        assert r.returncode == 0, r.stdout
        try:
            b = run("bash", "/opt/vp/build.sh")
            print(i, "build:", b.returncode, b.stdout[-600:] if b.returncode else "")
            o = tempfile.mktemp(suffix=".json", dir="/tmp")
            run("bash", "/opt/vp/test.sh", o)
            res = json.load(open(o))
            os.remove(o)
            ok = set(res.get("passed", []))
            print(i, "stable tests missing:", sorted(base - ok)[:5])
            a = run("bash", os.path.join(d, "demo.sh"))
            print(i, "demo with the change:", a.returncode, a.stdout[-300:])
        finally:
            run("git", "checkout", "--", ".")


def catch(ids, props=None):
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        try:
            for p in props or [prop]:
                r = subprocess.run(["./check", p], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(i, p, "exit", r.returncode, "|", " / ".join(r.stdout.strip().splitlines()[-2:])[:300], flush=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(ids)
    elif cmd == "verify":
        verify(ids)
    elif cmd == "catch":
        catch([i for i in ids if not i.startswith("P")], [i for i in ids if i.startswith("P")])
