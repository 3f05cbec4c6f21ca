//! Sources, sinks and disks whose behaviour is prescribed step by step.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// What a source does on one call of `read`
#[derive(Clone, Debug)]
pub enum Give {
    /// hands over at most this number of bytes
    Bytes(usize),
    /// fails
    Fail(ErrorKind),
}

/// Source with a prescribed chunking; when the plan is over, it starts again.
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Vec<Give>,
    pub at: usize,
    /// plan is used once, afterwards the rest is given in chunks of this size
    pub rest: Option<usize>,
    /// failures returned so far
    pub failed: Rc<Cell<usize>>,
    /// calls answered with "end of data"
    pub ends: Rc<Cell<usize>>,
}

impl Source {
    pub fn new(data: Vec<u8>, plan: Vec<Give>) -> Self {
        Source { data, pos: 0, plan, at: 0, rest: None, failed: Rc::default(), ends: Rc::default() }
    }
    pub fn once(data: Vec<u8>, plan: Vec<Give>, rest: usize) -> Self {
        Source { data, pos: 0, plan, at: 0, rest: Some(rest), failed: Rc::default(), ends: Rc::default() }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let step = if self.plan.is_empty() {
            Give::Bytes(usize::MAX)
        } else if let Some(step) = self.plan.get(self.at) {
            step.clone()
        } else if let Some(rest) = self.rest {
            Give::Bytes(rest)
        } else {
            self.at = 0;
            self.plan[0].clone()
        };
        self.at += 1;
        let left = self.data.len() - self.pos;
        match step {
            Give::Fail(kind) => {
                self.failed.set(self.failed.get() + 1);
                Err(Error::new(kind, "planned"))
            }
            Give::Bytes(n) => {
                let n = n.max(1).min(left).min(buf.len());
                if n == 0 {
                    self.ends.set(self.ends.get() + 1);
                }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

/// Sink which accepts bytes as prescribed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Take {
    /// accepts at most this number of bytes; 0: refuses to accept any
    Bytes(usize),
    /// fails with `Interrupted`
    Intr,
    /// fails with another error
    Fail,
}

pub struct Sink {
    pub got: Vec<u8>,
    pub plan: Vec<Take>,
    pub at: usize,
    /// when the plan is over: starts again, or accepts everything
    pub cycle: bool,
    pub zero: usize,
    pub intr: usize,
    pub fail: usize,
    pub calls: usize,
    /// true: `write_vectored` looks at the first non-empty slice only (like std's default)
    pub first_only: bool,
}

impl Sink {
    pub fn new(plan: Vec<Take>, cycle: bool) -> Self {
        Sink { got: Vec::new(), plan, at: 0, cycle, zero: 0, intr: 0, fail: 0, calls: 0, first_only: false }
    }
    fn step(&mut self) -> Take {
        self.calls += 1;
        if self.calls > 200_000 {
            panic!("endless writing");
        }
        if self.at >= self.plan.len() {
            if self.plan.is_empty() || !self.cycle {
                return Take::Bytes(usize::MAX);
            }
            self.at = 0;
        }
        self.at += 1;
        match self.plan[self.at - 1] {
            // no output is interrupted forever
            Take::Intr if self.intr >= 50 => Take::Bytes(usize::MAX),
            t => t,
        }
    }
    fn accept(&mut self, bufs: &[&[u8]]) -> Result<usize> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        match self.step() {
            Take::Intr => {
                self.intr += 1;
                Err(Error::new(ErrorKind::Interrupted, "planned"))
            }
            Take::Fail => {
                self.fail += 1;
                Err(Error::other("planned"))
            }
            Take::Bytes(n) => {
                let mut left = n.min(total);
                let taken = left;
                if taken == 0 && total > 0 {
                    self.zero += 1;
                }
                for b in bufs {
                    let k = left.min(b.len());
                    self.got.extend_from_slice(&b[..k]);
                    left -= k;
                }
                Ok(taken)
            }
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.accept(&[buf])
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> Result<usize> {
        if self.first_only {
            let b: &[u8] = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
            return self.accept(&[b]);
        }
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        self.accept(&v)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// Shared in-memory file with a log of its write operations and prescribed failures.
#[derive(Default)]
pub struct DiskState {
    pub data: Vec<u8>,
    pub ops: Vec<(usize, Vec<u8>)>,
    /// write operation (counted from now) that fails, and how many of its bytes are still stored
    pub fail_at: Option<(usize, usize)>,
    /// after the failure nothing works any more
    pub crash: bool,
    pub dead: bool,
    /// at most so many bytes are accepted per write operation (0: no limit)
    pub short: usize,
    pub failures: usize,
}

#[derive(Clone, Default)]
pub struct Disk(pub Arc<Mutex<DiskState>>);

impl Disk {
    pub fn of(data: Vec<u8>) -> Self {
        let d = Disk::default();
        d.0.lock().unwrap().data = data;
        d
    }
    pub fn open(&self) -> Handle {
        Handle { disk: self.clone(), pos: 0 }
    }
    pub fn image(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.clone()
    }
}

pub struct Handle {
    disk: Disk,
    pos: u64,
}

impl Read for Handle {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let d = self.disk.0.lock().unwrap();
        if d.dead {
            return Err(Error::other("dead"));
        }
        let from = (self.pos as usize).min(d.data.len());
        let n = buf.len().min(d.data.len() - from);
        buf[..n].copy_from_slice(&d.data[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

fn put(data: &mut Vec<u8>, at: usize, bytes: &[u8]) {
    if bytes.is_empty() {
        return;
    }
    if data.len() < at + bytes.len() {
        data.resize(at + bytes.len(), 0);
    }
    data[at..at + bytes.len()].copy_from_slice(bytes);
}

impl Write for Handle {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut guard = self.disk.0.lock().unwrap();
        let d = &mut *guard;
        if d.dead {
            return Err(Error::other("dead"));
        }
        let at = self.pos as usize;
        if let Some((n, keep)) = d.fail_at {
            if n == 0 {
                let keep = keep.min(buf.len());
                d.fail_at = None;
                d.failures += 1;
                d.dead = d.crash;
                put(&mut d.data, at, &buf[..keep]);
                return Err(Error::other("planned"));
            }
            d.fail_at = Some((n - 1, keep));
        }
        let n = if d.short > 0 { buf.len().min(d.short) } else { buf.len() };
        put(&mut d.data, at, &buf[..n]);
        d.ops.push((at, buf[..n].to_vec()));
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if self.disk.0.lock().unwrap().dead {
            return Err(Error::other("dead"));
        }
        Ok(())
    }
}

impl Seek for Handle {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        let d = self.disk.0.lock().unwrap();
        let p = match pos {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(o) => d.data.len() as i128 + o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
        };
        if p < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative position"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
