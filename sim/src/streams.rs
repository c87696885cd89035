//! Simulated byte streams: the reader and writer arguments through which the
//! library meets disks and sockets.
use crate::core::*;
use std::io::{self, Read, Write};

#[derive(Clone, Debug, Default)]
pub struct StreamCfg {
    /// Transfer fewer bytes than asked.
    pub short: bool,
    /// Return `Interrupted` now and then.
    pub eintr: bool,
    /// Fail at this byte offset.
    pub hard_at: Option<usize>,
    /// What a failed stream does afterwards: 0 fail again, 1 end, 2 go on.
    pub after: u64,
    /// The failure of a writer is `Ok(0)`.
    pub write_zero: bool,
    pub kind: u64,
    /// One benign fault in about this many calls.
    pub gap: u64,
}

impl StreamCfg {
    /// Swarm-style: which fault kinds are on is drawn per stream.
    pub fn draw(ctx: &Ctx, len: usize, hard: bool) -> Self {
        let mut c = StreamCfg { short: ctx.chance(1, 2), eintr: ctx.chance(1, 2), gap: 1 + ctx.draw(6), ..Default::default() };
        if hard && ctx.chance(1, 3) {
            c.hard_at = Some(ctx.below(len + 1));
            c.after = ctx.draw(3);
            c.kind = ctx.draw(KINDS.len() as u64);
            c.write_zero = ctx.chance(1, 4);
        }
        c
    }
    pub fn calm() -> Self {
        Default::default()
    }
}

const KINDS: [io::ErrorKind; 16] = [
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::NotFound,
    io::ErrorKind::WriteZero,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
];

fn kind(k: u64) -> io::ErrorKind {
    KINDS[k as usize]
}

pub struct SimReader<'a> {
    ctx: &'a Ctx,
    data: &'a [u8],
    pub pos: usize,
    cfg: StreamCfg,
    /// A hard failure was delivered to the caller.
    pub failed: bool,
    pub calls: u64,
    eintr_run: u32,
    pub on_call: Option<&'a dyn Fn()>,
}

impl<'a> SimReader<'a> {
    pub fn new(ctx: &'a Ctx, data: &'a [u8], cfg: StreamCfg) -> Self {
        SimReader { ctx, data, pos: 0, cfg, failed: false, calls: 0, eintr_run: 0, on_call: None }
    }
}

impl<'a> Read for SimReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 1_000_000 {
            panic!("reader called without end");
        }
        if let Some(f) = self.on_call {
            f();
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed && self.cfg.after == 0 {
            return Err(io::Error::new(kind(self.cfg.kind), "simulated"));
        }
        if self.failed && self.cfg.after == 1 {
            return Ok(0);
        }
        let mut end = self.data.len();
        if let (Some(h), false) = (self.cfg.hard_at, self.failed) {
            if self.pos >= h {
                self.failed = true;
                self.ctx.fault("stream:read_error");
                return Err(io::Error::new(kind(self.cfg.kind), "simulated"));
            }
            end = end.min(h);
        }
        if self.cfg.eintr && self.eintr_run < 3 && self.ctx.draw(self.cfg.gap + 1) == self.cfg.gap {
            self.eintr_run += 1;
            self.ctx.fault("stream:eintr");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated"));
        }
        self.eintr_run = 0;
        let mut n = buf.len().min(end - self.pos);
        if self.cfg.short && n > 1 && self.ctx.draw(self.cfg.gap + 1) == self.cfg.gap {
            n = 1 + self.ctx.below(n - 1);
            self.ctx.fault("stream:short_read");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct SimWriter<'a> {
    ctx: &'a Ctx,
    pub out: Vec<u8>,
    cfg: StreamCfg,
    pub failed: bool,
    pub calls: u64,
    eintr_run: u32,
    pub on_call: Option<&'a dyn Fn()>,
}

impl<'a> SimWriter<'a> {
    pub fn new(ctx: &'a Ctx, cfg: StreamCfg) -> Self {
        SimWriter { ctx, out: vec![], cfg, failed: false, calls: 0, eintr_run: 0, on_call: None }
    }
}

impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 1_000_000 {
            panic!("writer called without end");
        }
        if let Some(f) = self.on_call {
            f();
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let fail = |c: &StreamCfg| {
            if c.write_zero {
                Ok(0)
            } else {
                Err(io::Error::new(kind(c.kind), "simulated"))
            }
        };
        if self.failed && self.cfg.after < 2 {
            return fail(&self.cfg);
        }
        let mut room = buf.len();
        if let (Some(h), false) = (self.cfg.hard_at, self.failed) {
            if self.out.len() >= h {
                self.failed = true;
                self.ctx.fault(if self.cfg.write_zero { "stream:write_zero" } else { "stream:write_error" });
                return fail(&self.cfg);
            }
            room = room.min(h - self.out.len());
        }
        if self.cfg.eintr && self.eintr_run < 3 && self.ctx.draw(self.cfg.gap + 1) == self.cfg.gap {
            self.eintr_run += 1;
            self.ctx.fault("stream:eintr");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated"));
        }
        self.eintr_run = 0;
        let mut n = room;
        if self.cfg.short && n > 1 && self.ctx.draw(self.cfg.gap + 1) == self.cfg.gap {
            n = 1 + self.ctx.below(n - 1);
            self.ctx.fault("stream:short_write");
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failed && self.cfg.after < 2 && !self.cfg.write_zero {
            return Err(io::Error::new(kind(self.cfg.kind), "simulated"));
        }
        Ok(())
    }
}
