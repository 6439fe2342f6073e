//! PRNG, hashing, allocation monitor, panic monitor, log sink.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Deterministic PRNG (splitmix64 seeded xorshift*)
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.u64() >> 33) % n as u64) as usize
    }
    /// Inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 40) as u8
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 40) as u16
    }
    /// True with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// An "interesting" u16
    pub fn edge16(&mut self) -> u16 {
        match self.below(6) {
            0 => self.pick(&[0, 1, 2, 254, 255, 256, 257, 258, 32767, 32768, 65534, 65535]),
            1 => self.u16(),
            2 => (self.u8() as u16) << 8,
            _ => self.u8() as u16,
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(c.len() as u64);
    }
    h
}

// ---------------------------------------------------------------- allocator

/// Live bytes one thread may hold before allocation is refused to code under
/// test
const CAP: i64 = 2 << 30;

/// Live bytes at which the monitors themselves give up, without a verdict
const OWN_CAP: i64 = 3 * CAP;

unsafe extern "C" {
    safe fn _exit(status: i32) -> !;
}

pub struct MonAlloc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TRAFFIC: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

fn on_alloc(size: usize) -> bool {
    LIVE.try_with(|l| {
        let n = l.get() + size as i64;
        if n > CAP {
            if GUARDED.try_with(|g| g.get()).unwrap_or(0) > 0 {
                return false;
            }
            if n > OWN_CAP {
                _exit(5);
            }
        }
        l.set(n);
        let _ = TRAFFIC.try_with(|t| t.set(t.get() + size as u64));
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
        let _ = BIGGEST.try_with(|b| {
            if size > b.get() {
                b.set(size)
            }
        });
        true
    })
    .unwrap_or(true)
}

fn on_free(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // while moving, both blocks may be live
        if !on_alloc(n) {
            return std::ptr::null_mut();
        }
        let r = unsafe { System.realloc(p, l, n) };
        if r.is_null() {
            on_free(n);
        } else {
            on_free(l.size());
        }
        r
    }
}

/// Live bytes allocated by this thread
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Peak number of live bytes allocated by this thread above the level at start
pub fn measure_peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

/// What a piece of work cost this thread
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    /// bytes allocated in total
    pub traffic: u64,
    /// most bytes live at a time
    pub peak: u64,
    /// processor time
    pub cpu_ns: u64,
}

/// Processor time this thread has used
pub fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Timespec(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec(0, 0);
    // 3: processor time of the calling thread
    match unsafe { clock_gettime(3, &mut t) } {
        0 => t.0 as u64 * 1_000_000_000 + t.1 as u64,
        _ => 0,
    }
}

pub fn measure_cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let t0 = TRAFFIC.with(|t| t.get());
    let c0 = cpu_ns();
    let (r, peak) = measure_peak(f);
    let c = Cost {
        traffic: TRAFFIC.with(|t| t.get()) - t0,
        peak: peak as u64,
        cpu_ns: cpu_ns() - c0,
    };
    (r, c)
}

// -------------------------------------------------------------------- panics

thread_local! {
    static GUARDED: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_monitor() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) > 0 {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            default(info);
        }
    }));
}

/// Run code under test; a panic becomes an `Err` describing it
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| format!("PANIC: {}", LAST.with(|l| l.borrow().clone())))
}

// ------------------------------------------------------------------- logging

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static LOGGED: Cell<u64> = const { Cell::new(0) };
}

struct Sink;

struct Count(u64);

impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if LOGGING.with(|l| l.get()) {
            let mut c = Count(0);
            let _ = std::fmt::write(&mut c, *r.args());
            LOGGED.with(|l| l.set(l.get() + c.0));
        }
    }
    fn flush(&self) {}
}

/// Install a sink which formats every log record while enabled on the thread
pub fn install_log_sink() {
    static S: Sink = Sink;
    let _ = log::set_logger(&S);
    log::set_max_level(log::LevelFilter::Trace);
}

pub fn with_logging<T>(on: bool, f: impl FnOnce() -> T) -> T {
    LOGGING.with(|l| l.set(on));
    let r = f();
    LOGGING.with(|l| l.set(false));
    r
}

/// Short description of bytes
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..160]), b.len())
    }
}

unsafe extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// Seconds of processor time a program may use
pub const CHILD_CPU: u64 = 20;

/// Bound the processor time and memory of a program; one which runs for ever
/// is ended by a signal
pub fn limited(cmd: &mut std::process::Command) -> &mut std::process::Command {
    use std::os::unix::process::CommandExt;
    const RLIMIT_CPU: i32 = 0;
    const RLIMIT_CORE: i32 = 4;
    const RLIMIT_AS: i32 = 9;
    // SAFETY: only async-signal-safe calls
    unsafe {
        cmd.pre_exec(|| {
            setrlimit(RLIMIT_CPU, &[CHILD_CPU, CHILD_CPU + 1]);
            setrlimit(RLIMIT_CORE, &[0, 0]);
            setrlimit(RLIMIT_AS, &[8 << 30, 8 << 30]);
            Ok(())
        })
    }
}
