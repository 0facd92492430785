//! Process-level seams: randomness (hash keys), clock and allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::rng::mix;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

thread_local! {
    static HASH: Cell<u64> = const { Cell::new(0x5EED) };
    static PLACE: Cell<u64> = const { Cell::new(0) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

pub static SEED_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);

/// Hash keys of the calling thread derive from `seed` from now on (effective if
/// called before the thread's first hash table).
pub fn enter_thread(seed: u64, in_sim: bool) {
    HASH.with(|h| h.set(seed));
    PLACE.with(|p| p.set(seed));
    IN_SIM.with(|s| s.set(in_sim));
}

/// Replaces libc's getrandom for this binary: std seeds `RandomState` from it,
/// once per thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    SEED_READS.fetch_add(1, Relaxed);
    let mut s = HASH.try_with(|h| h.get()).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 {
            s = mix(s);
        }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    let _ = HASH.try_with(|h| h.set(s));
    len as isize
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// Replaces libc's clock_gettime: simulated time inside clients.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if IN_SIM.try_with(|s| s.get()).unwrap_or(false) {
        CLOCK_READS.fetch_add(1, Relaxed);
        let ns = CLOCK_NS.load(Relaxed);
        (*ts).sec = 1_000_000_000 + (ns / 1_000_000_000) as i64;
        (*ts).nsec = (ns % 1_000_000_000) as i64;
        0
    } else {
        syscall(228, clk as i64, ts) as i32
    }
}

/// Counts allocations: the unit of simulated work, bounded per run.
pub struct Counting;
static ALLOCS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static LIB: Cell<bool> = const { Cell::new(false) };
    static MINE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// What the calling thread allocates and frees until this is dropped is (or is not) the
/// library's.
pub struct Lib(bool);

impl Lib {
    pub fn new(on: bool) -> Lib {
        Lib(LIB.with(|l| l.replace(on)))
    }
}

impl Drop for Lib {
    fn drop(&mut self) {
        LIB.with(|l| l.set(self.0));
    }
}

/// Bytes the library holds in this thread since `lib_forget`, and the most it has held
/// since the last call of this.
pub fn lib_memory() -> (i64, i64) {
    let m = MINE.with(|m| m.get());
    (m, PEAK.with(|p| p.replace(m)))
}

pub fn lib_forget() {
    MINE.with(|m| m.set(0));
    PEAK.with(|p| p.set(0));
}

fn owned(delta: i64) {
    if LIB.try_with(|l| l.get()).unwrap_or(false) {
        let m = MINE.with(|m| m.get()) + delta;
        MINE.with(|x| x.set(m));
        if m > PEAK.with(|p| p.get()) {
            PEAK.with(|p| p.set(m));
        }
    }
}
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE: AtomicU64 = AtomicU64::new(0);
const MAX_LIVE: u64 = 2 << 30;
pub const RUNAWAY: i32 = 77;

fn over() -> ! {
    let m = b"\nRUNAWAY\n";
    // Outside an armed run it is the harness that went too far.
    let armed = LIMIT.load(Relaxed) != u64::MAX;
    unsafe {
        write(1, m.as_ptr() as *const std::ffi::c_void, m.len());
        _exit(if armed { RUNAWAY } else { 70 })
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = ALLOCS.load(Relaxed) + 1;
        ALLOCS.store(n, Relaxed);
        let live = LIVE.fetch_add(l.size() as u64, Relaxed);
        if n > LIMIT.load(Relaxed) || (live as i64) > MAX_LIVE as i64 {
            over();
        }
        owned(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        owned(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add((n as u64).wrapping_sub(l.size() as u64), Relaxed);
        if (LIVE.load(Relaxed) as i64) > MAX_LIVE as i64 {
            over();
        }
        owned(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
pub fn arm(budget: u64) {
    LIMIT.store(allocs().saturating_add(budget), Relaxed);
}
pub fn disarm() {
    LIMIT.store(u64::MAX, Relaxed);
}

/// Replaces libc's getpid: every simulated client is another process.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if IN_SIM.try_with(|s| s.get()).unwrap_or(false) {
        ENV_READS.fetch_add(1, Relaxed);
        300 + (mix(PLACE.with(|p| p.get())) % 30_000) as i32
    } else {
        syscall(39) as i32
    }
}

/// Replaces libc's sched_getaffinity: every simulated client has another number of cores.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if IN_SIM.try_with(|s| s.get()).unwrap_or(false) {
        ENV_READS.fetch_add(1, Relaxed);
        let cores = 1 + (mix(PLACE.with(|p| p.get()) ^ 1) % 16) as usize;
        for i in 0..n {
            *mask.add(i) = if i < cores / 8 {
                0xFF
            } else if i == cores / 8 {
                (1u32 << (cores % 8)) as u8 - 1
            } else {
                0
            };
        }
        0
    } else {
        let r = syscall(204, pid as i64, n, mask);
        if r < 0 {
            -1
        } else {
            0
        }
    }
}

extern "C" {
    static environ: *const *const u8;
}

/// Replaces libc's getenv: every simulated client has other variables set, to other values.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    const VALUES: [&[u8]; 8] = [b"\0", b"0\0", b"1\0", b"2\0", b"7\0", b"true\0", b"debug\0", b"100000\0"];
    let len = (0..).find(|&i| *name.add(i) == 0).unwrap_or(0);
    let key = std::slice::from_raw_parts(name, len);
    if IN_SIM.try_with(|s| s.get()).unwrap_or(false) && !key.starts_with(b"RUST_") {
        ENV_READS.fetch_add(1, Relaxed);
        let h = key.iter().fold(PLACE.with(|p| p.get()) ^ 2, |h, &b| mix(h ^ b as u64));
        return if h & 1 == 0 { std::ptr::null() } else { VALUES[(h >> 8) as usize % VALUES.len()].as_ptr() };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        if (0..len).all(|i| *v.add(i) == key[i]) && *v.add(len) == b'=' {
            return v.add(len + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// The name of a simulated client's thread, which differs from client to client too.
pub fn thread_name(seed: u64) -> String {
    let n = mix(seed ^ 3);
    match n % 4 {
        0 => "main".into(),
        1 => format!("worker-{}", n >> 8 & 7),
        2 => format!("tokio-runtime-worker-{}", n >> 8 & 63),
        _ => String::new(),
    }
}

extern "C" {
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn personality(persona: u64) -> i32;
}

/// The next program this process executes has no randomised addresses.
pub fn fixed_addresses() {
    unsafe {
        let old = personality(0xFFFF_FFFF);
        if old >= 0 {
            personality(old as u64 | 0x0040000);
        }
    }
}

/// Keeps this process on one core: handing the baton over is then cheap.
pub fn pin(slot: usize) {
    unsafe {
        let mut m = [0u64; 16];
        if sched_getaffinity(0, 128, m.as_mut_ptr() as *mut u8) < 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[slot % cpus.len()];
        let mut m = [0u64; 16];
        m[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

/// Depth of the call stack that is watched.
const WATCHED: usize = 768 << 10;
const PAINT: u64 = 0x5AC4_F00D_1DEA_5EED;

/// Paints the unused stack below the caller; returns where the paint begins.
#[inline(never)]
pub fn stack_paint() -> usize {
    let here = 0u64;
    let top = (std::ptr::addr_of!(here) as usize - 1024) & !7;
    for a in (top - WATCHED..top).step_by(8) {
        unsafe { std::ptr::write_volatile(a as *mut u64, PAINT) };
    }
    top
}

/// Bytes of stack used below `top` since it was painted.
#[inline(never)]
pub fn stack_used(top: usize) -> usize {
    let mut a = top - WATCHED;
    while a < top && unsafe { std::ptr::read_volatile(a as *const u64) } == PAINT {
        a += 8;
    }
    top - a
}
