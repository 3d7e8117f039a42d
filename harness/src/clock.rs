//! The virtual clock of the engine simulator: `clock_gettime` of this process.
//!
//! While `ON`, every CLOCK_* read returns the virtual time and then the scheduled tick is added
//! *before* the value is taken, so the caller sees time move between any two reads.
use std::cell::UnsafeCell;

pub struct Clock {
    pub on: bool,
    pub now: u64,
    pub reads: u64,
    pub ticks: Vec<u64>,
    pub peek: bool,
    pub deadline: Option<u64>,
    pub reads_after_deadline: u64,
    /// measure the CPU time spent between reads (slow; probes only)
    pub measure: bool,
    pub last_cpu: f64,
    pub max_gap: f64,
    /// search work (hook in the engine) when the clock was last read, or the call began
    pub work_mark: u64,
    pub max_work: u64,
}
struct Cell(UnsafeCell<Clock>);
unsafe impl Sync for Cell {}
static CLOCK: Cell = Cell(UnsafeCell::new(Clock {
    on: false,
    now: 0,
    reads: 0,
    ticks: Vec::new(),
    peek: false,
    deadline: None,
    reads_after_deadline: 0,
    measure: false,
    last_cpu: 0.0,
    max_gap: 0.0,
    work_mark: 0,
    max_work: 0,
}));

/// Candidates examined since the last mark.
pub fn work_mark() {
    let w = noodle::sim::WORK.load(std::sync::atomic::Ordering::Relaxed);
    let c = clock();
    if c.deadline.is_some() {
        c.max_work = c.max_work.max(w - c.work_mark);
    }
    c.work_mark = w;
}

/// Workers are single-threaded.
#[allow(clippy::mut_from_ref)]
pub fn clock() -> &'static mut Clock {
    unsafe { &mut *CLOCK.0.get() }
}

pub fn real_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") id as i64, in("rsi") ts,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r as i32
}

pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    real_gettime(1, &mut ts);
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

/// CPU time of this thread since the last mark.
pub fn cpu_mark() {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    real_gettime(3, &mut ts);
    let t = ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9;
    let c = clock();
    if c.last_cpu > 0.0 && t - c.last_cpu > c.max_gap {
        c.max_gap = t - c.last_cpu;
    }
    c.last_cpu = t;
}

#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    let c = clock();
    if !c.on {
        return real_gettime(id, ts);
    }
    if !c.peek {
        if !c.ticks.is_empty() {
            let t = c.ticks[(c.reads % c.ticks.len() as u64) as usize];
            c.now += t;
        }
        c.reads += 1;
        work_mark();
        if c.measure {
            cpu_mark();
        }
        if let Some(d) = c.deadline {
            if c.now > d {
                c.reads_after_deadline += 1;
            }
        }
    }
    unsafe {
        (*ts).tv_sec = (c.now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (c.now % 1_000_000_000) as i64;
    }
    0
}

/// Current virtual time as an `Instant`, without counting as a read.
pub fn instant() -> std::time::Instant {
    let c = clock();
    c.peek = true;
    let i = std::time::Instant::now();
    c.peek = false;
    i
}
