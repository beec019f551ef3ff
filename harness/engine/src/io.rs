//! Streams that chunk, interrupt and fail.

use std::io::{self, ErrorKind, Read, Write};

use crate::src::{Rng, Src};

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// 0: as much as asked for; n: at most n bytes per call
    pub chunk: usize,
    /// seed of irregular chunk sizes and interruptions, 0 for none
    pub jitter: u64,
    pub interrupts: bool,
    /// fail once this many bytes were delivered
    pub fail_at: Option<usize>,
    /// what failing means: 0.. an error kind; for writers 3 is a write of zero bytes
    pub kind: u8,
    /// fail once only, so that whoever ignores the failure can go on
    pub once: bool,
}

impl Plan {
    pub fn gen(s: &mut Src) -> Plan {
        let mut p = Plan::default();
        match s.weighted(&[1, 3, 2, 3]) {
            0 => (),
            1 => p.chunk = 1,
            2 => p.chunk = 2 + s.idx(9),
            _ => p.jitter = 1 + s.below(1 << 30),
        }
        if s.bool() {
            p.interrupts = true;
            p.jitter = p.jitter.max(1 + s.below(1 << 30));
        }
        p
    }

    fn error(&self) -> io::Error {
        match self.kind % 3 {
            0 => io::Error::new(ErrorKind::BrokenPipe, "injected"),
            1 => io::Error::new(ErrorKind::WouldBlock, "injected"),
            _ => io::Error::new(ErrorKind::Other, "injected"),
        }
    }
}

/// A reader over a byte string. Delivers by the plan; too many calls are taken for a decoder that
/// does not terminate.
pub struct Feed<'a> {
    data: &'a [u8],
    pub pos: usize,
    plan: Plan,
    rng: Rng,
    pub fired: bool,
    pub calls: u64,
    fuel: u64,
    was_interrupted: bool,
}

impl<'a> Feed<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self::with_plan(data, Plan::default())
    }

    pub fn with_plan(data: &'a [u8], plan: Plan) -> Self {
        Feed {
            data,
            pos: 0,
            rng: Rng::new(plan.jitter),
            plan,
            fired: false,
            calls: 0,
            // every byte may be probed and re-read at some levels of nesting
            fuel: 20_000 + 400 * data.len() as u64,
            was_interrupted: false,
        }
    }
}

impl<'a> Read for Feed<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.fuel {
            panic!("decoding does not terminate: {} reads from an input of {} bytes", self.calls, self.data.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.interrupts && !self.was_interrupted && self.rng.next() % 3 == 0 {
            self.was_interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.was_interrupted = false;
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(f) = self.plan.fail_at {
            if self.plan.once && self.fired {
            } else if self.pos >= f {
                self.fired = true;
                return Err(self.plan.error());
            }
            if self.pos < f {
                n = n.min(f - self.pos);
            }
        }
        if self.plan.chunk > 0 {
            n = n.min(self.plan.chunk);
        } else if self.plan.jitter > 0 && n > 1 {
            n = 1 + (self.rng.next() % n.min(17) as u64) as usize;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct Sink {
    pub data: Vec<u8>,
    plan: Plan,
    rng: Rng,
    pub fired: bool,
    was_interrupted: bool,
    calls: u64,
}

impl Sink {
    pub fn with_plan(plan: Plan) -> Self {
        Sink { data: vec![], rng: Rng::new(plan.jitter), plan, fired: false, was_interrupted: false, calls: 0 }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 10_000_000 {
            panic!("serialization does not terminate");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.interrupts && !self.was_interrupted && self.rng.next() % 3 == 0 {
            self.was_interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.was_interrupted = false;
        let mut n = buf.len();
        if let Some(f) = self.plan.fail_at {
            if self.plan.once && self.fired {
            } else if self.data.len() >= f {
                self.fired = true;
                if self.plan.kind % 4 == 3 {
                    return Ok(0);
                }
                return Err(self.plan.error());
            }
            if self.data.len() < f {
                n = n.min(f - self.data.len());
            }
        }
        if self.plan.chunk > 0 {
            n = n.min(self.plan.chunk);
        } else if self.plan.jitter > 0 && n > 1 {
            n = 1 + (self.rng.next() % n.min(17) as u64) as usize;
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
