//! How much work a call does and how much memory a parser holds, counted exactly: instructions by
//! stepping the processor, bytes by the allocator. The same stepping preempts a call between any two
//! instructions of it.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static FREED: Cell<u64> = const { Cell::new(0) };
    /// This thread is in the simulator's own code (or in the allocator): no preemption here.
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// This thread is being stepped, to be preempted.
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    /// Instructions of the code under test so far in this call, all of them, and where to stop next.
    static OWN: Cell<u64> = const { Cell::new(0) };
    static ALL: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
    /// The same for the instructions that use writable static memory.
    static TOUCHES: Cell<u64> = const { Cell::new(0) };
    static TOUCH_AT: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
    static STOPS: Cell<u64> = const { Cell::new(0) };
}

/// While one of these lives, its thread runs at full speed and is not preempted.
pub struct Quiet(());
impl Quiet {
    #[inline]
    pub fn new() -> Quiet {
        if STEPPING.get() {
            step::off();
        }
        DEPTH.set(DEPTH.get() + 1);
        Quiet(())
    }
}
impl Default for Quiet {
    fn default() -> Self {
        Quiet::new()
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        let d = DEPTH.get() - 1;
        DEPTH.set(d);
        if d == 0 && STEPPING.get() {
            step::on();
        }
    }
}
/// A panic starts: the rest of the call is not stepped.
pub fn no_more_stepping() {
    if STEPPING.get() {
        STEPPING.set(false);
        step::off();
    }
}
/// The system's allocator; adds up what each thread gives back.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _q = Quiet::new();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _q = Quiet::new();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _q = Quiet::new();
        let _ = FREED.try_with(|f| f.set(f.get() + l.size() as u64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _q = Quiet::new();
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// Bytes this thread has given back so far.
pub fn freed() -> u64 {
    FREED.with(|f| f.get())
}

static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(0);

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod step {
    use super::*;
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    unsafe extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    }
    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    const SA_ONSTACK: i32 = 0x0800_0000;
    /// Offset of the flags register in the saved context, and the trap flag in it.
    const EFL: usize = 176;
    const TF: u64 = 0x100;

    /// And of the instruction pointer.
    const RIP: usize = 168;

    extern "C" fn trap(_: i32, _: *const u8, ctx: *mut u8) {
        if STEPS.fetch_add(1, Ordering::Relaxed) >= LIMIT.load(Ordering::Relaxed) {
            // enough: the rest runs at full speed
            unsafe { *(ctx.add(EFL) as *mut u64) &= !TF };
        }
    }
    unsafe extern "C" {
        static __executable_start: u8;
        static etext: u8;
        static __data_start: u8;
        static end: u8;
        fn __errno_location() -> *mut i32;
    }
    /// Does the instruction name writable static memory, as far as one can see from its first bytes?
    fn touches(ip: usize) -> bool {
        let at = |i: usize| unsafe { *((ip + i) as *const u8) };
        let mut i = 0;
        while i < 4 && matches!(at(i), 0x66 | 0xf2 | 0xf3 | 0xf0 | 0x2e | 0x3e | 0x26 | 0x36) {
            i += 1;
        }
        if at(i) & 0xf0 == 0x40 {
            i += 1;
        }
        match (at(i), at(i + 1)) {
            (0x0f, 0x38 | 0x3a) => i += 3,
            (0x0f, _) => i += 2,
            (0xc4 | 0xc5 | 0x62, _) => return false,
            _ => i += 1,
        }
        if at(i) & 0xc7 != 0x05 {
            return false;
        }
        let disp = unsafe { ((ip + i + 1) as *const i32).read_unaligned() };
        let target = (ip + i + 5).wrapping_add(disp as isize as usize);
        // an immediate operand may follow, of up to four bytes
        target + 4 >= &raw const __data_start as usize && target < &raw const end as usize
    }
    /// Stops the call at the chosen instructions and gives way to the other threads. Where the
    /// program itself runs, no lock of the C library is held, and the simulator's own code does
    /// not come here.
    extern "C" fn preempt(_: i32, _: *const u8, ctx: *mut u8) {
        let enough = || {
            STEPPING.set(false);
            unsafe { *(ctx.add(EFL) as *mut u64) &= !TF };
        };
        ALL.set(ALL.get() + 1);
        if ALL.get() > 8_000 {
            return enough();
        }
        let ip = unsafe { *(ctx.add(RIP) as *const usize) };
        if DEPTH.get() > 0 || ip < &raw const __executable_start as usize || ip >= &raw const etext as usize {
            return;
        }
        let n = OWN.get() + 1;
        OWN.set(n);
        let at = AT.get();
        let mut stop = at.contains(&n);
        let touch_at = TOUCH_AT.get();
        if touch_at[0] > 0 && touches(ip) {
            let t = TOUCHES.get() + 1;
            TOUCHES.set(t);
            stop |= touch_at.contains(&t);
        }
        if stop {
            STOPS.set(STOPS.get() + 1);
            let errno = unsafe { *__errno_location() };
            // what runs in between on this thread is the simulator
            DEPTH.set(1);
            STEPPING.set(false);
            crate::exec::yield_now();
            STEPPING.set(true);
            DEPTH.set(0);
            unsafe { *__errno_location() = errno };
        }
        if at.iter().all(|a| *a <= n) && touch_at.iter().all(|a| *a <= TOUCHES.get()) {
            enough();
        }
    }
    static INSTALLED: Mutex<(u8, bool)> = Mutex::new((0, false));
    fn install(which: u8, f: extern "C" fn(i32, *const u8, *mut u8), flags: i32) -> bool {
        let mut i = INSTALLED.lock().unwrap_or_else(|e| e.into_inner());
        if i.0 != which {
            let a = SigAction { handler: f as usize, mask: [0; 16], flags: SA_SIGINFO | flags, restorer: 0 };
            *i = (which, unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) } == 0);
        }
        i.1
    }
    pub fn to_count() -> bool {
        install(1, trap, SA_ONSTACK)
    }
    pub fn to_preempt() -> bool {
        // on the thread's own stack, which is large enough
        install(2, preempt, 0)
    }
    #[inline(always)]
    pub fn on() {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    }
    #[inline(always)]
    pub fn off() {
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod step {
    pub fn to_count() -> bool {
        false
    }
    pub fn to_preempt() -> bool {
        false
    }
    pub fn on() {}
    pub fn off() {}
}

/// Run `f` instruction by instruction, as long as it is at most `limit` of them.
pub fn counted<R>(limit: u64, f: impl FnOnce() -> R) -> (R, u64) {
    if !step::to_count() {
        return (f(), 0);
    }
    STEPS.store(0, Ordering::Relaxed);
    LIMIT.store(limit, Ordering::Relaxed);
    step::on();
    let r = f();
    step::off();
    (r, STEPS.load(Ordering::Relaxed))
}

/// Run `f`, and give way to the other threads before each of the given instructions of it, and before
/// each of the given ones of those that use writable static memory.
/// Returns how often that happened and how many such uses of static memory there were until the last.
pub fn preempted<R>(at: &[u64], touch_at: &[u64], f: impl FnOnce() -> R) -> (R, u64, u64) {
    if at.is_empty() && touch_at.is_empty() || !step::to_preempt() {
        return (f(), 0, 0);
    }
    let mut a = [0; 4];
    a.iter_mut().zip(at).for_each(|(x, y)| *x = *y);
    AT.set(a);
    a = [0; 4];
    a.iter_mut().zip(touch_at).for_each(|(x, y)| *x = *y);
    TOUCH_AT.set(a);
    OWN.set(0);
    TOUCHES.set(0);
    ALL.set(0);
    STOPS.set(0);
    STEPPING.set(true);
    step::on();
    let r = f();
    STEPPING.set(false);
    step::off();
    (r, STOPS.get(), TOUCHES.get())
}
