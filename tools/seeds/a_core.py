RD = "brec/src/packet/reader.rs"
SEEDS = [
 dict(id="stream-litter-before-split-header", property="P05",
  edits=[(RD, """                if from > 0 {
                    // We can drain most bytes in buffer and left only length of header signature
                    self.rules.ignore(&buffer[..from])?;
                    buffer.drain(..from);""", """                if from > 0 {
                    // We can drain most bytes in buffer and left only length of header signature
                    self.rules.ignore(&buffer[buffered.min(from)..from])?;
                    buffer.drain(..from);""")],
  needs="foreign bytes carried over from an earlier read, followed by a packet header that the source splits between two reads",
  breaks="the foreign bytes kept from the earlier read are never handed to the ignored-data callback",
  demo=r'''
use std::sync::{Arc, Mutex};
struct Parts(Vec<Vec<u8>>);
impl std::io::Read for Parts {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { return Ok(0); }
        let mut p = self.0.remove(0);
        let n = p.len().min(b.len());
        b[..n].copy_from_slice(&p[..n]);
        if n < p.len() { p.drain(..n); self.0.insert(0, p); }
        Ok(n)
    }
}
fn main() {
    let litter: Vec<u8> = (0..12).collect();
    let mut p = pk(3, Some("hello"));
    let mut all = litter.clone();
    all.extend(enc(&mut p));
    let mut src = Parts(vec![all[..5].to_vec(), all[5..32].to_vec(), all[32..].to_vec()]);
    let got: Arc<Mutex<Vec<u8>>> = Arc::default();
    let g = got.clone();
    let mut r = PacketBufReader::new(&mut src);
    r.add_rule(Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| g.lock().unwrap().extend_from_slice(b))))).unwrap();
    let mut n = 0;
    for _ in 0..50 {
        match r.read().unwrap() { NextPacket::Found(q) => { assert!(same(&q, &p)); n += 1; } NextPacket::NoData => break, _ => {} }
    }
    assert_eq!(n, 1);
    assert_eq!(*got.lock().unwrap(), litter);
}
'''),
 dict(id="rules-duplicate-payload-filter", property="P07",
  edits=[("brec/src/packet/rules.rs", """                if self
                    .rules
                    .iter()
                    .any(|r| matches!(r, RuleDef::FilterByPayload(..)))
                {
                    return Err(Error::RuleDuplicate);
                }""", """                let before = self.rules.len();
                self.rules
                    .retain(|r| !matches!(r, RuleDef::FilterByPayload(..)));
                if self.rules.len() != before {
                    return Err(Error::RuleDuplicate);
                }""")],
  needs="adding a second payload filter while one is active, and then reading packets",
  breaks="the refused duplicate removes the active payload filter instead of leaving it in force",
  demo=r'''
fn main() {
    let mut bytes = Vec::new();
    for i in 0..6 { bytes.extend(enc(&mut pk(i, Some("x")))); }
    let mut src = std::io::Cursor::new(bytes);
    let mut r = PacketBufReader::new(&mut src);
    r.add_rule(Rule::FilterByPayload(brec::RuleFnDef::Static(|_| false))).unwrap();
    assert!(r.add_rule(Rule::FilterByPayload(brec::RuleFnDef::Static(|_| true))).is_err());
    let mut n = 0;
    loop { match r.read().unwrap() { NextPacket::Found(_) => n += 1, NextPacket::NoData => break, _ => {} } }
    assert_eq!(n, 0);
}
'''),

 dict(id="header-crc-without-flag", property="P03",
  edits=[("brec/src/packet/header/mod.rs", "        hasher.update(payload.map(|_| &[1]).unwrap_or(&[0]));\n", ""),
         ("brec/src/packet/header/mod.rs", "        hasher.update(if self.payload { &[1] } else { &[0] });\n", "")],
  needs="the payload flag byte of a packet header is altered (writer and reader agree on the weaker checksum)",
  breaks="the flag is not covered by the header checksum any more: the packet is delivered without its payload",
  demo=r"""
fn main() {
    let mut p = pk(4, Some("payload"));
    let bytes = enc(&mut p);
    let mut bad = bytes.clone();
    bad[24] = 0;
    if let Ok(q) = <Packet as ReadFrom>::read(&mut std::io::Cursor::new(&bad)) { assert!(same(&p, &q), "different packet delivered"); }
    let mut src = std::io::Cursor::new(bad);
    let mut r = PacketBufReader::new(&mut src);
    for _ in 0..20 {
        match r.read() { Ok(NextPacket::Found(q)) => assert!(same(&p, &q), "different packet delivered"), Ok(NextPacket::NoData) => break, _ => {} }
    }
}
"""),
 dict(id="write-count-short-block", property="P08",
  edits=[("brec/src/packet/write.rs", """            let written = blk.write(buf)?;
            if written < size {
                return Ok(total + written);
            }
            total += written;""", """            let written = blk.write(buf)?;
            if written < size {
                return Ok(total);
            }
            total += written;""")],
  needs="an output that accepts only a part of a block in a single (non-complete) write",
  breaks="the returned number of bytes is smaller than what the output accepted",
  demo=r"""
struct Few(Vec<u8>, usize);
impl std::io::Write for Few {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.1 -= n; self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    for room in [10usize, 29, 35, 40, 60] {
        let mut p = pk(5, None);
        let full = enc(&mut p);
        let mut out = Few(Vec::new(), room);
        let n = match WriteMutTo::write(&mut p, &mut out) { Ok(n) => n, Err(_) => continue };
        assert_eq!(n, out.0.len(), "room {room}");
        assert_eq!(out.0[..], full[..n]);
    }
}
"""),
 dict(id="payload-header-missing-count", property="P04",
  edits=[("brec/src/payload/header/sreader.rs", "return Ok(NextChunk::NotEnoughData(self.read + 4u64 - self.len));", "return Ok(NextChunk::NotEnoughData(4u64));")],
  needs="a payload header cut inside its length field",
  breaks="more bytes are reported as missing than there are",
  demo=r"""
fn main() {
    let mut all = Vec::new();
    Payload::PlX(PlX { s: "abc".into(), v: vec![1, 2] }).write_all(&mut all).unwrap();
    let head = 1 + all[0] as usize + 1 + all[1 + all[0] as usize] as usize + 4;
    for cut in 0..head {
        let mut c = std::io::Cursor::new(all[..cut].to_vec());
        match <PayloadHeader as TryReadFrom>::try_read(&mut c) {
            Ok(ReadStatus::NotEnoughData(n)) => assert!(n >= 1 && n as usize <= head - cut, "{n} of {}", head - cut),
            _ => panic!("unexpected at {cut}"),
        }
        assert_eq!(c.position(), 0);
    }
}
"""),
 dict(id="stream-bad-payload-header", property="P06",
  edits=[(RD, """                Err(err) => {
                    return self.drop_and_consume(consume, Err(err));
                }
            }
        } else {""", """                Err(err) => {
                    return Err(err);
                }
            }
        } else {""")],
  needs="a packet in the stream whose payload header declares a signature of an impossible length, all checksums before it being right",
  breaks="the damaged packet is not consumed: the same error is returned forever, and packets behind it are never delivered",
  demo=r"""
fn main() {
    let mut bytes = enc(&mut pk(2, Some("first")));
    let at = bytes.len();
    let mut p = pk(4, Some("second"));
    let blocks: usize = p.blocks.iter().map(|b| b.size() as usize).sum();
    bytes.extend(enc(&mut p));
    bytes[at + 29 + blocks] = 9;
    bytes.extend(enc(&mut pk(6, Some("third"))));
    let mut src = std::io::Cursor::new(bytes);
    let mut r = PacketBufReader::new(&mut src);
    let (mut found, mut errors) = (0, 0);
    for _ in 0..100 {
        match r.read() { Ok(NextPacket::Found(_)) => found += 1, Ok(NextPacket::NoData) => break, Ok(_) => {}, Err(_) => errors += 1 }
    }
    assert_eq!(found, 2);
    assert!(errors <= 1);
}
"""),
 dict(id="buffered-reader-cached-view", property="P15",
  edits=[("brec/src/traits/read/reader.rs", """        let inner = self.inner.fill_buf()?;
        self.filled.clear();
        self.filled.reserve(inner.len() + self.buffer.len());
        self.filled.extend_from_slice(&self.buffer);
        self.filled.extend_from_slice(inner);
        Ok(&self.filled)""", """        let inner = self.inner.fill_buf()?;
        // Joined view is still valid unless its length changed
        if self.filled.len() != inner.len() + self.buffer.len() {
            self.filled.clear();
            self.filled.reserve(inner.len() + self.buffer.len());
            self.filled.extend_from_slice(&self.buffer);
            self.filled.extend_from_slice(inner);
        }
        Ok(&self.filled)""")],
  needs="looking ahead with a preload, reading some bytes and refilling so that equally many bytes are in view again, and looking ahead",
  breaks="looking ahead shows bytes that were handed out before",
  demo=r"""
use std::io::{BufRead, Read};
fn main() {
    let data: Vec<u8> = (0..40).collect();
    let mut inner = std::io::BufReader::with_capacity(4, std::io::Cursor::new(data.clone()));
    let mut r = BufferedReader::new(&mut inner);
    let mut pos = 0;
    for _ in 0..5 {
        r.refill().unwrap();
        let v = r.fill_buf().unwrap().to_vec();
        assert_eq!(v[..], data[pos..pos + v.len()]);
        let mut b = [0u8; 4];
        r.read_exact(&mut b).unwrap();
        pos += 4;
        assert_eq!(b[..], data[pos - 4..pos]);
    }
}
"""),
 dict(id="stream-one-block-too-many", property="P18",
  edits=[(RD, """                if count == MAX_BLOCKS_COUNT {""", """                if blocks.len() > MAX_BLOCKS_COUNT as usize {"""),
         (RD, """                count += 1;
                blocks.push(blk);""", """                blocks.push(blk);"""),
         (RD, """        let mut count = 0;
""", "")],
  needs="a packet with exactly 256 blocks in a stream",
  breaks="the stream reader accepts a packet that every other reader refuses",
  demo=r"""
fn main() {
    let blocks = (0..256).map(|n| Block::BlkB(BlkB { n, f: false, x: 0.5 })).collect();
    let bytes = enc(&mut Packet::new(blocks, None));
    assert!(matches!(<Packet as ReadFrom>::read(&mut std::io::Cursor::new(&bytes)), Err(brec::Error::MaxBlocksCount)));
    let mut src = std::io::Cursor::new(bytes);
    let mut r = PacketBufReader::new(&mut src);
    for _ in 0..20 {
        match r.read() { Ok(NextPacket::Found(_)) => panic!("accepted"), Ok(NextPacket::NoData) => panic!("not refused"), Ok(_) => {}, Err(e) => { assert!(matches!(e, brec::Error::MaxBlocksCount)); return; } }
    }
}
"""),
]
