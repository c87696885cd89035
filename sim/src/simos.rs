//! The simulated operating system.
//!
//! The functions of the C library through which the code under test reaches
//! files, standard output and the kernel's random number generator are
//! defined here, in the executable, and so replace the C library's.  On a
//! thread that has no simulation active they forward to the real kernel; on
//! one that has, files live in memory, standard output is captured, entropy
//! comes from the run's tape, and the run's tape decides which calls fail, are
//! interrupted, transfer only part of what was asked, or never return because
//! the process is killed there.
use crate::core::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};

const EINTR: i32 = 4;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EAGAIN: i32 = 11;
const ENOENT: i32 = 2;
const ENOSPC: i32 = 28;
const ENOSYS: i32 = 38;
const EACCES: i32 = 13;
const EMFILE: i32 = 24;
const VFD: i32 = 1 << 20;
const VFD_RANDOM: i32 = (1 << 20) - 1;

extern "C" {
    fn __errno_location() -> *mut c_int;
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

unsafe fn forward(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r >= -4095 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

fn fail(e: i32) -> i64 {
    set_errno(e);
    -1
}

#[derive(Clone, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    /// Contents guaranteed after a power loss; `None`: the file may vanish.
    pub durable: Option<Vec<u8>>,
    pub dirty: bool,
}

struct OpenFile {
    path: String,
    pos: usize,
    readable: bool,
    writable: bool,
    append: bool,
    /// The file was unlinked or replaced: the descriptor keeps its own copy.
    detached: Option<Vec<u8>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IoKind {
    Open,
    Read,
    Write,
    Other,
}

#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    pub short: bool,
    pub eintr: bool,
    pub eio: bool,
    pub enospc: bool,
    pub open_fail: bool,
    pub crash: bool,
    /// Largest number of calls between two faults; 0: no faults.
    pub max_gap: u64,
    /// Hard faults (everything but short and eintr) at most this often.
    pub max_hard: u32,
    /// Faults at calls of this kind only; gaps count only those.
    pub only: Option<IoKind>,
}

#[derive(Clone, Debug)]
pub struct Entropy {
    pub prng: Prng,
    pub delivered: u64,
    pub calls: u64,
    pub short: bool,
    pub eintr: bool,
    /// After this many calls every further one fails with this error.
    pub die_after: Option<(u64, i32)>,
    pub gap: u64,
    pub failed: bool,
    pub trace: Vec<u8>,
    pub keep_trace: bool,
}

impl Entropy {
    pub fn seeded(seed: u64) -> Self {
        Entropy {
            prng: Prng::new(mix(seed ^ 0xE17)),
            delivered: 0,
            calls: 0,
            short: false,
            eintr: false,
            die_after: None,
            gap: 0,
            failed: false,
            trace: vec![],
            keep_trace: false,
        }
    }
}

pub struct Os {
    pub fs_on: bool,
    pub files: BTreeMap<String, Inode>,
    fds: BTreeMap<i32, OpenFile>,
    next_fd: i32,
    pub stdout: Vec<u8>,
    pub entropy: Option<Entropy>,
    pub cfg: FaultCfg,
    gap: u64,
    pub crashed: bool,
    pub hard_faults: u32,
    pub benign_faults: u32,
    pub calls: u64,
    ctx: *const Ctx,
    pub hard_log: Vec<String>,
    pub opened_random: bool,
}

impl Os {
    fn new() -> Self {
        Os {
            fs_on: false,
            files: BTreeMap::new(),
            fds: BTreeMap::new(),
            next_fd: VFD,
            stdout: vec![],
            entropy: None,
            cfg: FaultCfg::default(),
            gap: 0,
            crashed: false,
            hard_faults: 0,
            benign_faults: 0,
            calls: 0,
            ctx: std::ptr::null(),
            hard_log: vec![],
            opened_random: false,
        }
    }
    fn ctx(&self) -> Option<&Ctx> {
        if self.ctx.is_null() {
            None
        } else {
            Some(unsafe { &*self.ctx })
        }
    }
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static OS: RefCell<Option<Box<Os>>> = const { RefCell::new(None) };
    /// Called before every entropy request (a scheduling point).
    pub static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Touches what the standard library initialises lazily on each thread, so
/// that no run does it.
pub fn warm() {
    let mut m = std::collections::HashMap::new();
    m.insert(1u32, 1u32);
    std::hint::black_box(&m);
    let mut probe = [0u8; 4];
    unsafe {
        syscall(318, 0, 0, 1, 0, 0, 0);
        syscall(318, probe.as_mut_ptr() as i64, 4, 0, 0, 0, 0);
    }
}

pub fn reset() {
    ACTIVE.with(|a| a.set(false));
    OS.with(|o| *o.borrow_mut() = None);
    YIELD.with(|y| y.set(None));
}

/// Access to the simulated machine of this thread, created on first use.
pub fn with<T>(f: impl FnOnce(&mut Os) -> T) -> T {
    OS.with(|o| {
        let mut o = o.borrow_mut();
        f(o.get_or_insert_with(|| Box::new(Os::new())))
    })
}

pub fn set_entropy(e: Option<Entropy>) {
    let on = with(|os| {
        os.entropy = e;
        os.fs_on || os.entropy.is_some()
    });
    ACTIVE.with(|a| a.set(on));
}

pub fn take_entropy() -> Option<Entropy> {
    let (e, on) = with(|os| {
        let e = os.entropy.take();
        (e, os.fs_on)
    });
    ACTIVE.with(|a| a.set(on));
    e
}

/// Runs `f` with the library drawing its entropy from a stream that `seed`
/// determines.
pub fn with_entropy<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    let prev = take_entropy();
    set_entropy(Some(Entropy::seeded(seed)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    take_entropy();
    if prev.is_some() {
        set_entropy(prev);
    }
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub struct CallReport {
    pub stdout: String,
    pub crashed: bool,
    pub hard: u32,
    pub benign: u32,
    pub io_calls: u64,
    pub hard_log: Vec<String>,
}

/// Runs one process on this thread's simulated machine: its files persist,
/// its descriptors do not.
pub fn process<T>(ctx: &Ctx, cfg: FaultCfg, entropy: Entropy, f: impl FnOnce() -> T) -> (Result<T, String>, CallReport) {
    with(|os| {
        os.fs_on = true;
        os.cfg = cfg.clone();
        os.crashed = false;
        os.hard_faults = 0;
        os.benign_faults = 0;
        os.hard_log.clear();
        os.calls = 0;
        os.stdout.clear();
        os.fds.clear();
        os.entropy = Some(entropy);
        os.ctx = ctx as *const Ctx;
        os.gap = if cfg.max_gap > 0 { ctx.draw(cfg.max_gap + 1) } else { 0 };
    });
    ACTIVE.with(|a| a.set(true));
    let r = guarded(f);
    ACTIVE.with(|a| a.set(false));
    let rep = with(|os| {
        os.fs_on = false;
        os.entropy = None;
        os.fds.clear();
        os.ctx = std::ptr::null();
        CallReport {
            stdout: String::from_utf8_lossy(&os.stdout).into_owned(),
            crashed: os.crashed,
            hard: os.hard_faults,
            benign: os.benign_faults,
            io_calls: os.calls,
            hard_log: os.hard_log.clone(),
        }
    });
    (r, rep)
}

/// Power loss: what was not made durable may be gone or torn.
pub fn power_loss(ctx: &Ctx) {
    with(|os| {
        let mut gone = vec![];
        for (path, ino) in os.files.iter_mut() {
            if !ino.dirty {
                continue;
            }
            match ctx.draw(4) {
                0 => {}
                1 => match &ino.durable {
                    Some(d) => {
                        ino.data = d.clone();
                        ctx.fault("disk:lost_write");
                    }
                    None => {
                        gone.push(path.clone());
                        ctx.fault("disk:lost_file");
                    }
                },
                2 => {
                    let n = ctx.draw(ino.data.len() as u64 + 1) as usize;
                    ino.data.truncate(n);
                    ctx.fault("disk:torn_truncated");
                }
                _ => {
                    let n = ctx.draw(ino.data.len() as u64 + 1) as usize;
                    for b in ino.data[n..].iter_mut() {
                        *b = 0;
                    }
                    ctx.fault("disk:torn_zero_filled");
                }
            }
        }
        for g in gone {
            os.files.remove(&g);
        }
        for ino in os.files.values_mut() {
            ino.dirty = false;
            ino.durable = Some(ino.data.clone());
        }
    })
}

/// Everything written so far reaches the platters (time passes).
pub fn settle() {
    with(|os| {
        for ino in os.files.values_mut() {
            ino.dirty = false;
            ino.durable = Some(ino.data.clone());
        }
    })
}

pub fn file(path: &str) -> Option<Vec<u8>> {
    with(|os| os.files.get(path).map(|i| i.data.clone()))
}

pub fn put_file(path: &str, data: &[u8]) {
    with(|os| {
        os.files.insert(
            path.to_string(),
            Inode { data: data.to_vec(), durable: Some(data.to_vec()), dirty: false },
        );
    })
}

pub fn remove_file(path: &str) {
    with(|os| {
        os.files.remove(path);
    })
}

fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

enum Fault {
    None,
    Short(usize),
    Errno(i32),
    Crash(usize),
}

impl Os {
    fn decide(&mut self, kind: IoKind, len: usize, what: &str) -> Fault {
        self.calls += 1;
        if self.cfg.only.is_some() && self.cfg.only != Some(kind) {
            return Fault::None;
        }
        if self.gap == 0 {
            return Fault::None;
        }
        self.gap -= 1;
        if self.gap > 0 {
            return Fault::None;
        }
        let ctx = match self.ctx() {
            Some(c) => c,
            None => return Fault::None,
        };
        let cfg = &self.cfg;
        let mut kinds: Vec<&'static str> = vec![];
        match kind {
            IoKind::Read | IoKind::Write => {
                if cfg.short && len > 1 {
                    kinds.push("short");
                }
                if cfg.eintr {
                    kinds.push("eintr");
                }
            }
            IoKind::Open => {
                if cfg.eintr {
                    kinds.push("eintr");
                }
            }
            _ => {}
        }
        if self.hard_faults < cfg.max_hard {
            if cfg.eio && (kind == IoKind::Read || kind == IoKind::Write) {
                kinds.push("eio");
            }
            if cfg.enospc && kind == IoKind::Write {
                kinds.push("enospc");
            }
            if cfg.open_fail && kind == IoKind::Open {
                kinds.push("open_fail");
            }
            if cfg.crash {
                kinds.push("crash");
            }
        }
        if kinds.is_empty() {
            let g = ctx.draw(cfg.max_gap + 1);
            self.gap = g;
            return Fault::None;
        }
        let k = kinds[ctx.below(kinds.len())];
        let r = match k {
            "short" => Fault::Short(1 + ctx.below(len - 1)),
            "eintr" => Fault::Errno(EINTR),
            // EIO, ESTALE, ETIMEDOUT, EAGAIN, EISDIR, EPIPE, ENXIO
            "eio" => Fault::Errno(*ctx.pick(&[EIO, EIO, 116, 110, EAGAIN, 21, 32, 6])),
            // ENOSPC, EDQUOT, EFBIG
            "enospc" => Fault::Errno(*ctx.pick(&[ENOSPC, ENOSPC, 122, 27])),
            // EACCES, EMFILE, EIO, ENOENT, EPERM, EEXIST, EISDIR, EROFS, ETXTBSY
            "open_fail" => Fault::Errno(*ctx.pick(&[EACCES, EMFILE, EIO, ENOENT, 1, 17, 21, 30, 26])),
            _ => Fault::Crash(if kind == IoKind::Write { ctx.below(len + 1) } else { 0 }),
        };
        ctx.fault(&format!("{}:{}", match kind {
            IoKind::Open => "open",
            IoKind::Read => "read",
            IoKind::Write => "write",
            IoKind::Other => "io",
        }, k));
        ctx.event(format!("  os: {} at call {} ({})", k, self.calls, what));
        let g = ctx.draw(cfg.max_gap + 1);
        let is_benign = matches!(k, "short" | "eintr");
        let msg = format!("{} at {}", k, what);
        self.gap = g;
        if is_benign {
            self.benign_faults += 1;
        } else {
            self.hard_faults += 1;
            self.hard_log.push(msg);
        }
        r
    }

    fn norm(&self, p: &str) -> String {
        if p.starts_with('/') {
            p.to_string()
        } else {
            format!("/cwd/{}", p)
        }
    }

    fn open(&mut self, path: &str, flags: i32) -> i64 {
        if self.crashed {
            return fail(EIO);
        }
        let acc = flags & 3;
        let path = self.norm(path);
        match self.decide(IoKind::Open, 0, &format!("open {}", path)) {
            Fault::Errno(e) => return fail(e),
            Fault::Crash(_) => {
                self.crashed = true;
                return fail(EIO);
            }
            _ => {}
        }
        let creat = flags & 0o100 != 0;
        let excl = flags & 0o200 != 0;
        let trunc = flags & 0o1000 != 0;
        let exists = self.files.contains_key(&path);
        if !exists && !creat {
            return fail(ENOENT);
        }
        if exists && creat && excl {
            return fail(17);
        }
        if !exists {
            self.files.insert(path.clone(), Inode { data: vec![], durable: None, dirty: true });
        } else if trunc && acc != 0 {
            let ino = self.files.get_mut(&path).unwrap();
            ino.data.clear();
            ino.dirty = true;
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            OpenFile { path, pos: 0, readable: acc != 1, writable: acc != 0, append: flags & 0o2000 != 0, detached: None },
        );
        fd as i64
    }

    fn read_at(&mut self, fd: i32, buf: *mut u8, len: usize, at: Option<usize>) -> i64 {
        if self.crashed {
            return fail(EIO);
        }
        let (path, ok) = match self.fds.get(&fd) {
            Some(f) => (f.path.clone(), f.readable),
            None => return fail(EBADF),
        };
        if !ok {
            return fail(EBADF);
        }
        let f = &self.fds[&fd];
        let pos = at.unwrap_or(f.pos);
        let size = match &f.detached {
            Some(d) => d.len(),
            None => self.files.get(&path).map(|i| i.data.len()).unwrap_or(0),
        };
        let avail = size.saturating_sub(pos).min(len);
        let n = match self.decide(IoKind::Read, avail, &format!("read {}", path)) {
            Fault::Errno(e) => return fail(e),
            Fault::Crash(_) => {
                self.crashed = true;
                return fail(EIO);
            }
            Fault::Short(k) => k,
            Fault::None => avail,
        };
        let f = self.fds.get_mut(&fd).unwrap();
        let data = match &f.detached {
            Some(d) => d,
            None => &self.files.get(&path).unwrap().data,
        };
        if n > 0 {
            unsafe { std::ptr::copy_nonoverlapping(data[pos..pos + n].as_ptr(), buf, n) };
        }
        if at.is_none() {
            f.pos = pos + n;
        }
        n as i64
    }

    fn apply_write(&mut self, fd: i32, bytes: &[u8], at: Option<usize>) {
        let f = self.fds.get_mut(&fd).unwrap();
        let (data, ino_dirty) = match &mut f.detached {
            Some(d) => (d, None),
            None => {
                let i = self.files.entry(f.path.clone()).or_default();
                (&mut i.data, Some(&mut i.dirty))
            }
        };
        let pos = at.unwrap_or(if f.append { data.len() } else { f.pos });
        if data.len() < pos + bytes.len() {
            data.resize(pos + bytes.len(), 0);
        }
        data[pos..pos + bytes.len()].copy_from_slice(bytes);
        if let Some(d) = ino_dirty {
            *d = true;
        }
        if at.is_none() {
            f.pos = pos + bytes.len();
        }
    }

    fn write_at(&mut self, fd: i32, bytes: &[u8], at: Option<usize>) -> i64 {
        if self.crashed {
            return fail(EIO);
        }
        let path = match self.fds.get(&fd) {
            Some(f) if f.writable => f.path.clone(),
            _ => return fail(EBADF),
        };
        let n = match self.decide(IoKind::Write, bytes.len(), &format!("write {} len {}", path, bytes.len())) {
            Fault::Errno(e) => return fail(e),
            Fault::Crash(k) => {
                self.apply_write(fd, &bytes[..k], at);
                self.crashed = true;
                return fail(EIO);
            }
            Fault::Short(k) => k,
            Fault::None => bytes.len(),
        };
        self.apply_write(fd, &bytes[..n], at);
        n as i64
    }

    fn stdout_write(&mut self, bytes: &[u8]) -> i64 {
        if !self.crashed {
            self.stdout.extend_from_slice(bytes);
        }
        bytes.len() as i64
    }

    fn other(&mut self, what: &str) -> Option<i64> {
        if self.crashed {
            return Some(fail(EIO));
        }
        match self.decide(IoKind::Other, 0, what) {
            Fault::Crash(_) => {
                self.crashed = true;
                Some(fail(EIO))
            }
            _ => None,
        }
    }

    fn detach(&mut self, path: &str) {
        let data = self.files.get(path).map(|i| i.data.clone()).unwrap_or_default();
        for f in self.fds.values_mut() {
            if f.path == path && f.detached.is_none() {
                f.detached = Some(data.clone());
            }
        }
    }

    fn entropy_read(&mut self, buf: *mut u8, len: usize, nofault: bool) -> i64 {
        if self.crashed {
            return fail(EIO);
        }
        let ctx = self.ctx;
        let e = match &mut self.entropy {
            Some(e) => e,
            None => return fail(EAGAIN),
        };
        e.calls += 1;
        if let Some((n, errno)) = e.die_after {
            // a caller that ignores the failure would ask for ever: after
            // this many refusals the source works again
            if e.calls > n && e.calls <= n + 256 {
                if !e.failed {
                    e.failed = true;
                    if !ctx.is_null() {
                        unsafe { (*ctx).fault("entropy:dead") };
                    }
                }
                return fail(errno);
            }
        }
        let mut n = len;
        if !nofault && e.gap > 0 && (e.short || e.eintr) && !ctx.is_null() {
            let ctx = unsafe { &*ctx };
            // one fault in about `gap` calls; 0 on the tape is no fault
            if ctx.draw(e.gap) == e.gap - 1 {
                if e.short && len > 1 && (!e.eintr || ctx.draw(2) == 0) {
                    n = 1 + ctx.below(len - 1);
                    ctx.fault("entropy:short");
                } else if e.eintr {
                    ctx.fault("entropy:eintr");
                    return fail(EINTR);
                }
            }
        }
        for i in 0..n {
            let b = (e.prng.next() >> 24) as u8;
            unsafe { *buf.add(i) = b };
            if e.keep_trace {
                e.trace.push(b);
            }
        }
        e.delivered += n as u64;
        n as i64
    }
}

/// The run whose tape decides entropy faults on this thread.
pub fn attach(ctx: &Ctx) {
    with(|os| os.ctx = ctx as *const Ctx);
}

unsafe fn cpath<'a>(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// Files of the real system that code may read even inside a simulation.
fn real_path(p: &str) -> bool {
    p.starts_with("/proc/") || p.starts_with("/sys/") || p.starts_with("/etc/") || p.starts_with("/usr/")
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if active() {
        let p = cpath(path);
        if (p == "/dev/urandom" || p == "/dev/random") && with(|os| os.entropy.is_some()) {
            with(|os| os.opened_random = true);
            return VFD_RANDOM;
        }
        if with(|os| os.fs_on) && !(real_path(&p) && flags & 3 == 0) {
            return with(|os| os.open(&p, flags)) as c_int;
        }
    }
    forward(257, -100, path as i64, flags as i64, mode as i64, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if active() {
        return do_open(path, flags, mode);
    }
    forward(257, dir as i64, path as i64, flags as i64, mode as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if active() {
        if fd >= VFD {
            return with(|os| os.read_at(fd, buf as *mut u8, len, None)) as isize;
        }
        if fd == VFD_RANDOM {
            if let Some(y) = YIELD.with(|y| y.get()) {
                y();
            }
            return with(|os| os.entropy_read(buf as *mut u8, len, false)) as isize;
        }
    }
    forward(0, fd as i64, buf as i64, len as i64, 0, 0, 0) as isize
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if active() && fd >= VFD_RANDOM {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return read(fd, v.base as *mut c_void, v.len);
            }
        }
        return 0;
    }
    forward(19, fd as i64, iov as i64, n as i64, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: usize, off: i64) -> isize {
    if active() && fd >= VFD {
        return with(|os| os.read_at(fd, buf as *mut u8, len, Some(off as usize))) as isize;
    }
    forward(17, fd as i64, buf as i64, len as i64, off, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if active() {
        let bytes = std::slice::from_raw_parts(if len == 0 { 1 as *const u8 } else { buf as *const u8 }, len);
        if fd >= VFD {
            return with(|os| os.write_at(fd, bytes, None)) as isize;
        }
        if fd == 1 && with(|os| os.fs_on) {
            return with(|os| os.stdout_write(bytes)) as isize;
        }
    }
    if fd == 1 && quiet_stdout() {
        return len as isize;
    }
    forward(1, fd as i64, buf as i64, len as i64, 0, 0, 0) as isize
}

/// Dependencies print progress on standard output; while a run is under way
/// on this thread that is dropped.
fn quiet_stdout() -> bool {
    QUIET.try_with(|q| q.get() > 0).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if active() && (fd >= VFD || fd == 1) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return write(fd, v.base as *const c_void, v.len);
            }
        }
        return 0;
    }
    forward(20, fd as i64, iov as i64, n as i64, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, off: i64) -> isize {
    if active() && fd >= VFD {
        let bytes = std::slice::from_raw_parts(buf as *const u8, len);
        return with(|os| os.write_at(fd, bytes, Some(off as usize))) as isize;
    }
    forward(18, fd as i64, buf as i64, len as i64, off, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= VFD_RANDOM {
        if active() {
            with(|os| os.fds.remove(&fd));
        }
        return 0;
    }
    forward(3, fd as i64, 0, 0, 0, 0, 0) as c_int
}
unsafe fn do_seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if active() && fd >= VFD {
        return with(|os| {
            let path = match os.fds.get(&fd) {
                Some(f) => f.path.clone(),
                None => return fail(EBADF),
            };
            let len = os.files.get(&path).map(|i| i.data.len()).unwrap_or(0) as i64;
            let f = os.fds.get_mut(&fd).unwrap();
            let p = match whence {
                0 => off,
                1 => f.pos as i64 + off,
                _ => len + off,
            };
            if p < 0 {
                return fail(22);
            }
            f.pos = p as usize;
            p
        });
    }
    forward(8, fd as i64, off, whence as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_seek(fd, off, whence)
}

fn fd_size(fd: i32) -> Option<u64> {
    with(|os| {
        let f = os.fds.get(&fd)?;
        Some(match &f.detached {
            Some(d) => d.len() as u64,
            None => os.files.get(&f.path).map(|i| i.data.len()).unwrap_or(0) as u64,
        })
    })
}

unsafe fn fill_stat(buf: *mut u8, size: u64) {
    std::ptr::write_bytes(buf, 0, 144);
    *(buf.add(16) as *mut u64) = 1;
    *(buf.add(24) as *mut u32) = 0o100644;
    *(buf.add(48) as *mut u64) = size;
    *(buf.add(56) as *mut u64) = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if active() && fd >= VFD {
        return match fd_size(fd) {
            Some(s) => {
                fill_stat(buf, s);
                0
            }
            None => fail(EBADF) as c_int,
        };
    }
    forward(5, fd as i64, buf as i64, 0, 0, 0, 0) as c_int
}
unsafe fn path_stat(path: *const c_char, buf: *mut u8, n: i64) -> c_int {
    if active() && with(|os| os.fs_on) {
        let p = cpath(path);
        if !real_path(&p) {
            return with(|os| {
                let p = os.norm(&p);
                match os.files.get(&p) {
                    Some(i) => {
                        fill_stat(buf, i.data.len() as u64);
                        0
                    }
                    None => fail(ENOENT) as c_int,
                }
            });
        }
    }
    forward(n, path as i64, buf as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut u8) -> c_int {
    path_stat(path, buf, 4)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut u8) -> c_int {
    path_stat(path, buf, 6)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    if active() {
        let size = if dir >= VFD {
            Some(fd_size(dir))
        } else if !path.is_null() && with(|os| os.fs_on) && !real_path(&cpath(path)) && dir < 0 {
            let p = cpath(path);
            Some(with(|os| {
                let p = os.norm(&p);
                os.files.get(&p).map(|i| i.data.len() as u64)
            }))
        } else {
            None
        };
        if let Some(size) = size {
            return match size {
                Some(s) => {
                    std::ptr::write_bytes(buf, 0, 256);
                    *(buf as *mut u32) = 0x7ff;
                    *(buf.add(4) as *mut u32) = 4096;
                    *(buf.add(16) as *mut u32) = 1;
                    *(buf.add(28) as *mut u16) = 0o100644;
                    *(buf.add(40) as *mut u64) = s;
                    0
                }
                None => fail(ENOENT) as c_int,
            };
        }
    }
    forward(332, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0) as c_int
}
unsafe fn do_sync(fd: c_int, n: i64) -> c_int {
    if active() && fd >= VFD {
        return with(|os| {
            if let Some(r) = os.other("fsync") {
                return r as c_int;
            }
            if let Some(f) = os.fds.get(&fd) {
                if let Some(i) = os.files.get_mut(&f.path) {
                    i.durable = Some(i.data.clone());
                    i.dirty = false;
                }
            }
            0
        });
    }
    forward(n, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, 74)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, 75)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if active() && fd >= VFD {
        return with(|os| {
            if let Some(r) = os.other("ftruncate") {
                return r as c_int;
            }
            if let Some(f) = os.fds.get(&fd) {
                if let Some(i) = os.files.get_mut(&f.path) {
                    i.data.resize(len as usize, 0);
                    i.dirty = true;
                }
            }
            0
        });
    }
    forward(77, fd as i64, len, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() && with(|os| os.fs_on) {
        let (a, b) = (cpath(a), cpath(b));
        return with(|os| {
            if let Some(r) = os.other("rename") {
                return r as c_int;
            }
            let (a, b) = (os.norm(&a), os.norm(&b));
            match os.files.remove(&a) {
                Some(i) => {
                    os.detach(&b);
                    let durable = os.files.get(&b).and_then(|o| o.durable.clone()).or(i.durable.clone());
                    for f in os.fds.values_mut() {
                        if f.path == a {
                            f.path = b.clone();
                        }
                    }
                    os.files.insert(b, Inode { durable, dirty: true, data: i.data });
                    0
                }
                None => fail(ENOENT) as c_int,
            }
        });
    }
    forward(82, a as i64, b as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if active() && with(|os| os.fs_on) {
        let a = cpath(a);
        return with(|os| {
            if let Some(r) = os.other("unlink") {
                return r as c_int;
            }
            let a = os.norm(&a);
            os.detach(&a);
            match os.files.remove(&a) {
                Some(_) => 0,
                None => fail(ENOENT) as c_int,
            }
        });
    }
    forward(87, a as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    if active() && with(|os| os.fs_on) {
        return 0;
    }
    forward(83, a as i64, mode as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: usize, fl: u32) -> isize {
    if active() && (a >= VFD || b >= VFD) {
        return fail(ENOSYS) as isize;
    }
    forward(326, a as i64, oa as i64, b as i64, ob as i64, n as i64, fl as i64) as isize
}

unsafe fn do_getrandom(buf: *mut u8, len: usize, flags: u32) -> i64 {
    if active() && with(|os| os.entropy.is_some()) {
        if len == 0 {
            return 0;
        }
        if let Some(y) = YIELD.with(|y| y.get()) {
            y();
        }
        return with(|os| os.entropy_read(buf, len, false));
    }
    forward(318, buf as i64, len as i64, flags as i64, 0, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    do_getrandom(buf as *mut u8, len, flags) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if n == 318 {
        return do_getrandom(a as *mut u8, b as usize, c as u32);
    }
    if n == 202 {
        // FUTEX_WAIT and FUTEX_WAKE of the standard library's locks
        if let Some(r) = crate::sched::futex_call(a as usize, b, c as u32, d != 0 && (b & 0x7f) != 1) {
            return match r {
                Ok(v) => v,
                Err(e) => fail(e),
            };
        }
    }
    if n == 332 {
        return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut u8) as c_long;
    }
    forward(n, a, b, c, d, e, f)
}
