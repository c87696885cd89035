//! The thread scheduler: real threads, one of which runs at a time.
//!
//! A thread under the scheduler gives control away only at scheduling points:
//! entropy requests, stream calls, calls into the caller's circuit, memory
//! allocations and releases, waiting for a lock, and, in runs that single-step,
//! any instruction: after a scheduling point the processor's trap flag is set
//! and the thread stopped a drawn number of instructions later.  At each point
//! the run's tape decides who goes on.  Locks of the standard library come here through
//! the futex call, so that waiting, waking and deadlock are the scheduler's
//! too.
use crate::core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Point {
    Alloc,
    Entropy,
    Stream,
    Caller,
    Lock,
    Step,
    End,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waiting on this address; with a time limit
    Blocked(usize, bool),
    Done,
}

struct Sched {
    ctx: *const Ctx,
    turn: AtomicU32,
    st: Vec<Cell<St>>,
    /// what each thread is doing, for the history
    doing: Vec<Cell<u64>>,
    gap: Cell<u64>,
    scale: u64,
    left: Cell<u64>,
    timed_out: Vec<Cell<bool>>,
    points: Cell<u64>,
    /// one window of single steps in this many decisions; 0: none
    fine: u64,
    fine_left: Cell<u64>,
}

static SCHED: AtomicPtr<Sched> = AtomicPtr::new(std::ptr::null_mut());

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    /// in the C library's allocator, where no thread may be stopped
    static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
    /// instructions until the thread is stopped
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    static __executable_start: u8;
    static etext: u8;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

const TF: u64 = 0x100;

/// SIGTRAP: one instruction was executed with the trap flag set.
unsafe extern "C" fn on_step(_sig: i32, _info: *mut u8, uc: *mut u8) {
    // gregs[REG_EFL] of the ucontext
    let efl = &mut *(uc.add(40 + 17 * 8) as *mut u64);
    let me = ME.with(|m| m.get());
    if me == usize::MAX || STEPS.with(|s| s.get()) == 0 {
        *efl &= !TF;
        return;
    }
    // only in our own code: the C library may hold locks of its own
    let rip = *(uc.add(40 + 16 * 8) as *const u64) as usize;
    if rip < &__executable_start as *const u8 as usize || rip >= &etext as *const u8 as usize {
        return;
    }
    if IN_ALLOC.with(|a| a.get()) || INSIDE.with(|i| i.get()) {
        return;
    }
    let n = STEPS.with(|s| s.get()) - 1;
    set(&STEPS, n);
    if n > 0 {
        return;
    }
    *efl &= !TF;
    let s = SCHED.load(Ordering::SeqCst);
    if s.is_null() {
        return;
    }
    let s = &*s;
    set(&INSIDE, true);
    s.switch(me, Point::Step);
    s.window();
    set(&INSIDE, false);
    if STEPS.with(|s| s.get()) > 0 {
        *efl |= TF;
    }
}

unsafe fn futex(a: &AtomicU32, op: i64, v: i64) {
    crate::simos::raw(202, a as *const AtomicU32 as i64, op | 128, v, 0, 0, 0);
}

impl Sched {
    fn ctx(&self) -> &Ctx {
        unsafe { &*self.ctx }
    }
    fn wait(&self, me: usize) {
        loop {
            let t = self.turn.load(Ordering::SeqCst);
            if t == me as u32 {
                return;
            }
            unsafe { futex(&self.turn, 0, t as i64) };
        }
    }
    fn give(&self, to: usize) {
        self.turn.store(to as u32, Ordering::SeqCst);
        unsafe { futex(&self.turn, 1, i32::MAX as i64) };
    }
    fn others(&self, me: usize) -> Vec<usize> {
        let n = self.st.len();
        (1..n).map(|k| (me + k) % n).filter(|i| *i != me && self.st[*i].get() == St::Ready).collect()
    }
    /// The running thread stops here; the tape decides who goes on.
    fn switch(&self, me: usize, p: Point) {
        let mut c = self.others(me);
        if self.st[me].get() == St::Ready {
            c.insert(0, me);
        }
        if c.is_empty() {
            // a waiter with a time limit gives up
            let n = self.st.len();
            let timed: Vec<usize> = (0..n).filter(|i| matches!(self.st[*i].get(), St::Blocked(_, true))).collect();
            if let Some(i) = timed.first() {
                self.timed_out[*i].set(true);
                self.st[*i].set(St::Ready);
                c.push(*i);
            } else if (0..n).all(|i| self.st[i].get() == St::Done) {
                self.give(n);
                return;
            } else {
                self.ctx().event("deadlock");
                deliver(self.ctx(), &Err(Violation::new("deadlock", format!("{} of {} callers wait for each other for ever", (0..n).filter(|i| self.st[*i].get() != St::Done).count(), n))));
            }
        }
        let spent = self.left.get() == 0;
        let next = if c.len() == 1 || spent { c[0] } else { c[self.ctx().below(c.len())] };
        if spent {
            self.gap.set(u64::MAX);
        } else {
            self.left.set(self.left.get() - 1);
            self.gap.set(self.ctx().draw(self.scale));
        }
        self.ctx().op();
        self.ctx().advance(1);
        if next != me {
            if self.st[me].get() == St::Ready {
                self.ctx().fault(&format!("schedule:preempted_at_{:?}", p).to_lowercase());
            }
            self.ctx().state(mix(self.doing[me].get() ^ mix(self.doing[next].get() ^ p as u64)));
            if self.ctx().log.borrow().len() < 400 {
                self.ctx().event(format!("{} -> {} at {:?} {}", me, next, p, self.points.get()));
            }
            self.give(next);
            if self.st[me].get() != St::Done {
                self.wait(me);
            }
        }
    }
}

impl Sched {
    /// The thread goes on from a decision: single-step it for a while?
    fn window(&self) {
        if self.fine == 0 || self.fine_left.get() == 0 || self.left.get() == 0 {
            return;
        }
        let c = self.ctx();
        if c.draw(self.fine) == self.fine - 1 {
            self.fine_left.set(self.fine_left.get() - 1);
            let top = [16, 128, 512, 2000][c.below(4)];
            set(&STEPS, 1 + c.draw(top));
            c.probe("single-step windows");
        }
    }
}

fn here() -> Option<(usize, &'static Sched)> {
    let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if me == usize::MAX || INSIDE.with(|i| i.get()) {
        return None;
    }
    let s = SCHED.load(Ordering::SeqCst);
    if s.is_null() {
        return None;
    }
    Some((me, unsafe { &*s }))
}

pub fn point(p: Point) {
    let Some((me, s)) = here() else { return };
    s.points.set(s.points.get() + 1);
    let g = s.gap.get();
    if p == Point::Alloc && g > 0 {
        s.gap.set(g - 1);
        return;
    }
    if s.left.get() == 0 {
        return;
    }
    set(&INSIDE, true);
    s.switch(me, p);
    s.window();
    set(&INSIDE, false);
    trap();
}

/// Starts the single steps, if any are due.
fn trap() {
    if STEPS.with(|s| s.get()) > 0 {
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }
}

/// What the thread is about to do, for the history.
pub fn doing(h: u64) {
    if let Some((me, s)) = here() {
        s.doing[me].set(h);
    }
}

/// The futex call of a thread under the scheduler.
pub fn futex_call(addr: usize, op: i64, val: u32, timed: bool) -> Option<Result<i64, i32>> {
    let (me, s) = here()?;
    set(&INSIDE, true);
    let r = match op & 0x7f {
        0 | 9 => {
            let now = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if now != val {
                Err(11)
            } else {
                s.ctx().probe("waited for a lock");
                s.st[me].set(St::Blocked(addr, timed));
                s.timed_out[me].set(false);
                s.switch(me, Point::Lock);
                s.window();
                if s.timed_out[me].get() {
                    Err(110)
                } else {
                    Ok(0)
                }
            }
        }
        1 | 10 => {
            let mut n = 0;
            for t in &s.st {
                if matches!(t.get(), St::Blocked(a, _) if a == addr) && n < val as i64 {
                    t.set(St::Ready);
                    n += 1;
                }
            }
            if n > 0 && s.left.get() > 0 {
                // whoever waited may go first
                s.switch(me, Point::Lock);
                s.window();
            }
            Ok(n)
        }
        _ => Err(38),
    };
    set(&INSIDE, false);
    trap();
    Some(r)
}

/// Runs the threads to completion, one at a time, as the tape decides.
pub fn run_threads(ctx: &Ctx, scale: u64, budget: u64, fine: u64, fs: Vec<Box<dyn FnOnce() + Send>>) {
    let n = fs.len();
    let s = Box::into_raw(Box::new(Sched {
        ctx,
        turn: AtomicU32::new(n as u32),
        st: (0..n).map(|_| Cell::new(St::Ready)).collect(),
        doing: (0..n).map(|_| Cell::new(0)).collect(),
        gap: Cell::new(0),
        scale,
        left: Cell::new(budget),
        timed_out: (0..n).map(|_| Cell::new(false)).collect(),
        points: Cell::new(0),
        fine,
        fine_left: Cell::new(if ctx.thorough { 40 } else { 12 }),
    }));
    if fine > 0 {
        let a = SigAction { handler: on_step as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert!(unsafe { sigaction(5, &a, std::ptr::null_mut()) } == 0, "HARNESS:sigaction");
    }
    SCHED.store(s, Ordering::SeqCst);
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    crate::simos::warm();
                    QUIET.with(|q| q.set(1));
                    let s: &Sched = unsafe { &*SCHED.load(Ordering::SeqCst) };
                    s.wait(i);
                    ME.with(|m| m.set(i));
                    let r = guarded(f);
                    set(&INSIDE, true);
                    if let Err(m) = r {
                        deliver(s.ctx(), &Err(Violation::new("HARNESS", m)));
                    }
                    s.st[i].set(St::Done);
                    s.switch(i, Point::End);
                    ME.with(|m| m.set(usize::MAX));
                })
                .expect("HARNESS:spawn"),
        );
    }
    let s: &Sched = unsafe { &*s };
    s.give(ctx.below(n));
    s.wait(n);
    ctx.probe_n("scheduling points", s.points.get());
    SCHED.store(std::ptr::null_mut(), Ordering::SeqCst);
    for h in hs {
        let _ = h.join();
    }
}

/// A store that the signal handler must see.
#[inline(always)]
fn set<T: Copy + 'static>(k: &'static std::thread::LocalKey<Cell<T>>, v: T) {
    use std::sync::atomic::compiler_fence;
    k.with(|c| {
        compiler_fence(Ordering::SeqCst);
        unsafe { std::ptr::write_volatile(c.as_ptr(), v) };
        compiler_fence(Ordering::SeqCst);
    })
}

#[inline(always)]
fn quietly<T>(f: impl FnOnce() -> T) -> T {
    set(&IN_ALLOC, true);
    let r = f();
    set(&IN_ALLOC, false);
    r
}

/// An allocator that is a scheduling point.
pub struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(Point::Alloc);
        quietly(|| System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point(Point::Alloc);
        quietly(|| System.dealloc(p, l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point(Point::Alloc);
        quietly(|| System.alloc_zeroed(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point(Point::Alloc);
        quietly(|| System.realloc(p, l, n))
    }
}

const SHM: usize = 64 << 20;
thread_local! {
    static BUF: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
}
/// Where the child's answer goes (one run per child).
static ANSWER: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

unsafe fn put(b: &[u8]) -> ! {
    let p = ANSWER.load(Ordering::SeqCst);
    let n = b.len().min(SHM - 8);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
    std::ptr::write_volatile(p as *mut u64, n as u64 + 1);
    _exit(0)
}

/// Runs `f` in a process of its own, a copy of this one at this moment.
/// `Err`: how it died.
pub fn in_fork(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    unsafe {
        let p = mmap(std::ptr::null_mut(), SHM, 3, 0x21 | 0x4000, -1, 0);
        assert!(p as isize != -1, "HARNESS:mmap");
        let pid = fork();
        assert!(pid >= 0, "HARNESS:fork");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            ANSWER.store(p, Ordering::SeqCst);
            let b = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(b) => b,
                Err(_) => _exit(3),
            };
            put(&b)
        }
        let mut st = 0;
        loop {
            let r = waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        let n = std::ptr::read_volatile(p as *const u64);
        let r = if n > 0 { Ok(std::slice::from_raw_parts(p.add(8), n as usize - 1).to_vec()) } else { Err(st) };
        munmap(p, SHM);
        r
    }
}

/// Ends the child with this outcome from wherever it is.
fn deliver(ctx: &Ctx, o: &Outcome) -> ! {
    let b = crate::runner::pack(ctx, o);
    unsafe { put(&b) }
}
