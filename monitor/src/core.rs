//! Execution core: case scheduling, deterministic randomness, oracle accounting, crash witnesses,
//! guard-page buffers.
use embedded_audio_tools::memory_access::{from_slice, from_slice_mut, null, null_mut, MemorySlice, Mutable, NonMutable};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------------------------------------
// Randomness
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851_f42d_4c95_7f2d))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// [0, 1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f32 {
        let v = lo + (hi - lo) * self.unit();
        self.settle(v, lo, hi)
    }
    /// One value in sixteen is a number people use: a whole one, a simple fraction or decimal, a power of
    /// two, a simple part of a turn, of the range or of a sample rate. Uniform choice never meets those.
    fn settle(&mut self, v: f64, lo: f64, hi: f64) -> f32 {
        if !self.chance(1, 16) {
            return v as f32;
        }
        let to = |step: f64| (v / step).round() * step;
        let w = match self.below(9) {
            0 => to(1.0),
            1 => to(self.pick(&[0.5, 0.25, 0.125, 0.0625])),
            2 => to(self.pick(&[0.1, 0.05, 0.01, 0.001])),
            3 => to(self.pick(&[10.0, 100.0, 1000.0, 12.0, 16.0])),
            4 => to(std::f64::consts::PI / self.pick(&[1.0, 2.0, 4.0, 12.0])),
            5 => lo + ((v - lo) / (hi - lo) * 8.0).round() * (hi - lo) / 8.0,
            6 => to(10f64.powf(v.abs().log10().floor())),
            7 => 2f64.powf(v.abs().log2().round()).copysign(v),
            _ => v as f32 as f64 * self.pick(&[0.5, 2.0]),
        } as f32;
        if (w as f64) > lo && (w as f64) < hi && w != 0.0 {
            w
        } else {
            v as f32
        }
    }
    /// log-uniform
    pub fn logf(&mut self, lo: f64, hi: f64) -> f32 {
        let v = (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp();
        self.settle(v, lo, hi)
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())]
    }
    pub fn bits(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    pub fn finite(&mut self) -> f32 {
        loop {
            let x = self.bits();
            if x.is_finite() {
                return x;
            }
        }
    }
    /// a plausible audio sample: mostly full-scale noise, sometimes silence, integers, hot or tiny
    pub fn sample(&mut self) -> f32 {
        match self.below(16) {
            0 => 0.0,
            1 => self.range(-8, 8) as f32,
            2 => self.f(-1000.0, 1000.0),
            3 => self.f(-1e-3, 1e-3),
            4 => self.pick(&[1.0f32, -1.0, 0.5, -0.5]),
            _ => self.f(-1.0, 1.0),
        }
    }
    pub fn len(&mut self, max: usize) -> usize {
        let l = match self.below(10) {
            0 => self.pick(&[1usize, 2, 3, 4, 5, 6, 7]),
            1 => self.pick(&[1usize, 2, 3]),
            2 => self.pick(&[8usize, 15, 16, 17, 24, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129]),
            3 => 1 + self.usize(40),
            4 | 5 => 1 + self.usize(300),
            6 => self.pick(&[255usize, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4800]),
            7 => 1 + self.usize(2500),
            _ => 1 + self.usize(24),
        };
        l.min(max).max(1)
    }
}

// ---------------------------------------------------------------------------------------------
// Verdicts and observations
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Viol>;

pub fn viol(key: &str, msg: String) -> Viol {
    Viol { key: key.to_string(), msg }
}

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub cases: u64,
    pub cov: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub distinct: HashSet<u64>,
    pub distinct_overflow: u64,
    pub enumerated: u64,
    pub samples: Vec<String>,
    pub viols: Vec<(u64, Viol)>,
    pub panics_allowed: u64,
}
pub const DISTINCT_CAP: usize = 1 << 20;

impl Obs {
    pub fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.cases += o.cases;
        for (k, v) in o.cov {
            *self.cov.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(f64::NEG_INFINITY);
            if v > *e {
                *e = v
            }
        }
        self.distinct.extend(o.distinct);
        self.distinct_overflow += o.distinct_overflow;
        self.enumerated += o.enumerated;
        self.samples.extend(o.samples);
        self.viols.extend(o.viols);
        self.panics_allowed += o.panics_allowed;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Release,
    Checked,
    Asan,
    Tsan,
    Miri,
}

pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    pub seed: u64,
    pub mode: Mode,
    pub thorough: bool,
    pub obs: Obs,
    h: u64,
    pub prop: &'static str,
    trace: Vec<String>,
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, mode: Mode, thorough: bool) -> Self {
        Ctx { rng: Rng::new(0), case: 0, seed, mode, thorough, obs: Obs::default(), h: 0, prop, trace: vec![] }
    }
    pub fn begin(&mut self, case: u64) {
        self.case = case;
        let mut h = self.seed;
        for b in self.prop.bytes() {
            h = mix(h ^ b as u64);
        }
        self.rng = Rng::new(mix(h ^ case));
        self.h = 0;
        self.trace.clear();
        CUR.with(|c| c.set(case));
    }
    pub fn small(&self) -> bool {
        self.mode == Mode::Miri
    }
    pub fn cov(&mut self, label: &'static str) {
        *self.obs.cov.entry(label).or_default() += 1;
    }
    pub fn covn(&mut self, label: &'static str, n: u64) {
        if n > 0 {
            *self.obs.cov.entry(label).or_default() += n;
        }
    }
    pub fn max(&mut self, label: &'static str, v: f64) {
        let e = self.obs.maxima.entry(label).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v
        }
    }
    pub fn ev(&mut self, n: u64) {
        self.obs.evals += n;
    }
    /// fold a value that characterises this case into its signature
    pub fn sig(&mut self, v: u64) {
        self.h = mix(self.h ^ v);
    }
    pub fn sigf(&mut self, v: f32) {
        self.sig(v.to_bits() as u64)
    }
    /// this case (its signature) was non-trivial: count it if not seen before
    pub fn nontrivial(&mut self) {
        let h = self.h;
        self.nontrivial_h(h)
    }
    pub fn nontrivial_h(&mut self, h: u64) {
        if self.obs.distinct.len() < DISTINCT_CAP {
            self.obs.distinct.insert(h);
        } else if !self.obs.distinct.contains(&h) {
            self.obs.distinct_overflow += 1;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 {
            let s = f();
            self.obs.samples.push(s);
        }
    }
    /// remember a line describing what this case does, for the witness
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.len() < 64 {
            let s = f();
            self.trace.push(s);
        } else {
            let s = f();
            self.trace.remove(32);
            self.trace.push(s);
        }
    }
    pub fn trace(&self) -> String {
        self.trace.join("; ")
    }
    pub fn ok(&mut self, cond: bool, key: &'static str, msg: impl FnOnce() -> String) -> R {
        self.obs.evals += 1;
        if cond {
            Ok(())
        } else {
            Err(viol(key, msg()))
        }
    }
    /// |a - b| <= tol, NaN is a mismatch
    pub fn near(&mut self, a: f64, b: f64, tol: f64, key: &'static str, msg: impl FnOnce() -> String) -> R {
        self.obs.evals += 1;
        let d = (a - b).abs();
        if d <= tol {
            Ok(())
        } else {
            Err(viol(key, format!("{} (got {a:?}, expected {b:?}, |diff| {d:e} > {tol:e})", msg())))
        }
    }
    /// record a violation without ending the case (used where a listed finding must not hide others)
    pub fn record(&mut self, key: &str, msg: String) {
        if !self.obs.viols.iter().any(|(_, v)| v.key == key) {
            let case = self.case;
            self.obs.viols.push((case, viol(key, msg)));
        }
    }
    /// run library code that is allowed to panic
    pub fn may_panic<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                self.obs.panics_allowed += 1;
                None
            }
        }
    }
}

thread_local! {
    pub static CUR: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

// ---------------------------------------------------------------------------------------------
// Crash witnesses (native builds): a fatal signal in library code names the case that raised it.
// ---------------------------------------------------------------------------------------------

#[cfg(not(miri))]
mod crash {
    use super::CUR;
    extern "C" fn handler(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
        unsafe {
            let case = CUR.try_with(|c| c.get()).unwrap_or(u64::MAX);
            let addr = if sig == libc::SIGSEGV || sig == libc::SIGBUS { (*info).si_addr() as usize } else { 0 };
            say(b"\nCRASH signal=", sig as u64, case, addr as u64);
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
        }
    }
    unsafe fn say(head: &[u8], sig: u64, case: u64, addr: u64) {
        let mut buf = [0u8; 160];
        let mut n = 0;
        let put = |buf: &mut [u8; 160], n: &mut usize, s: &[u8]| {
            for b in s {
                if *n < 160 {
                    buf[*n] = *b;
                    *n += 1;
                }
            }
        };
        let num = |buf: &mut [u8; 160], n: &mut usize, mut v: u64| {
            let mut d = [0u8; 20];
            let mut i = 20;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            for b in &d[i..] {
                if *n < 160 {
                    buf[*n] = *b;
                    *n += 1;
                }
            }
        };
        put(&mut buf, &mut n, head);
        num(&mut buf, &mut n, sig);
        put(&mut buf, &mut n, b" case=");
        num(&mut buf, &mut n, case);
        put(&mut buf, &mut n, b" addr=");
        num(&mut buf, &mut n, addr);
        put(&mut buf, &mut n, b"\n");
        libc::write(2, buf.as_ptr() as *const libc::c_void, n);
    }
    /// called by the AddressSanitizer runtime before it prints a report
    #[no_mangle]
    pub extern "C" fn __asan_on_error() {
        unsafe {
            let case = CUR.try_with(|c| c.get()).unwrap_or(u64::MAX);
            say(b"\nCRASH asan=", 1, case, 0);
        }
    }
    pub fn install() {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = handler as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
    }
}
#[cfg(not(miri))]
pub fn install_crash_handler(mode: Mode) {
    if mode == Mode::Release || mode == Mode::Checked {
        crash::install();
    }
}
#[cfg(miri)]
pub fn install_crash_handler(_: Mode) {}

// ---------------------------------------------------------------------------------------------
// Buffers handed to the library
// ---------------------------------------------------------------------------------------------

/// Canary around the samples: a NaN no workload ever stores.
pub const CANARY: u32 = 0x7fc0_dead;

pub struct Buf {
    data: *mut f32,
    len: usize,
    #[cfg(not(miri))]
    map: Option<Map>,
    heap: Option<(*mut u8, std::alloc::Layout)>,
}

#[cfg(not(miri))]
#[derive(Clone, Copy)]
struct Map {
    base: *mut u8,
    pages: usize, // data pages, one guard page on either side
}
#[cfg(not(miri))]
const PAGE: usize = 4096;
#[cfg(not(miri))]
thread_local! {
    static POOL: RefCell<Vec<Map>> = const { RefCell::new(Vec::new()) };
}

#[cfg(not(miri))]
fn map_get(pages: usize) -> Map {
    let want = pages.next_power_of_two();
    if let Some(m) = POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.iter().position(|m| m.pages == want).map(|i| p.swap_remove(i))
    }) {
        return m;
    }
    unsafe {
        let total = (want + 2) * PAGE;
        let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(base != libc::MAP_FAILED, "harness: mmap");
        let base = base as *mut u8;
        let r = libc::mprotect(base.add(PAGE) as *mut libc::c_void, want * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        assert!(r == 0, "harness: mprotect");
        Map { base, pages: want }
    }
}

impl Buf {
    pub fn new(c: &mut Ctx, init: &[f32]) -> Buf {
        let at_end = c.rng.chance(1, 2);
        let heap = cfg!(miri) || (c.mode == Mode::Asan && c.rng.chance(2, 3));
        Buf::make(init, at_end, heap)
    }
    fn make(init: &[f32], at_end: bool, heap: bool) -> Buf {
        let len = init.len();
        assert!(len > 0);
        let _ = at_end;
        if heap {
            let layout = std::alloc::Layout::array::<f32>(len).unwrap();
            unsafe {
                let p = std::alloc::alloc(layout);
                let data = p as *mut f32;
                for (i, v) in init.iter().enumerate() {
                    data.add(i).write(*v);
                }
                return Buf {
                    data,
                    len,
                    #[cfg(not(miri))]
                    map: None,
                    heap: Some((p, layout)),
                };
            }
        }
        #[cfg(not(miri))]
        unsafe {
            let bytes = len * 4;
            let m = map_get(bytes.div_ceil(PAGE));
            let cap = m.pages * PAGE / 4;
            let first = m.base.add(PAGE) as *mut f32;
            for i in 0..cap {
                (first.add(i) as *mut u32).write(CANARY);
            }
            let data = if at_end { first.add(cap - len) } else { first };
            for (i, v) in init.iter().enumerate() {
                data.add(i).write(*v);
            }
            Buf { data, len, map: Some(m), heap: None }
        }
        #[cfg(miri)]
        unreachable!()
    }
    /// A huge buffer ending at a guard page, zero-filled lazily (native only).
    #[cfg(not(miri))]
    pub fn huge(len: usize) -> Option<Buf> {
        let pages = (len * 4).div_ceil(PAGE);
        unsafe {
            let total = (pages + 2) * PAGE;
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            if base == libc::MAP_FAILED {
                return None;
            }
            let base = base as *mut u8;
            if libc::mprotect(base.add(PAGE) as *mut libc::c_void, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                libc::munmap(base as *mut libc::c_void, total);
                return None;
            }
            let data = (base.add(PAGE + pages * PAGE) as *mut f32).sub(len);
            // layout None => unmapped explicitly below through pages marker usize::MAX
            Some(Buf { data, len, map: Some(Map { base, pages: pages | HUGE }), heap: None })
        }
    }
    pub fn guarded(&self) -> bool {
        #[cfg(not(miri))]
        return self.map.is_some();
        #[cfg(miri)]
        false
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn ptr(&self) -> *mut f32 {
        self.data
    }
    pub fn get(&self, i: usize) -> f32 {
        assert!(i < self.len);
        unsafe { self.data.add(i).read_volatile() }
    }
    pub fn set(&self, i: usize, v: f32) {
        assert!(i < self.len);
        unsafe { self.data.add(i).write_volatile(v) }
    }
    /// a mutable view, obtained either way the crate offers
    pub fn view_mut(&self) -> MemorySlice<Mutable> {
        if cfg!(miri) {
            let mut v = null_mut();
            unsafe { v.change_mut_slice_unchecked(self.data, self.len) };
            v
        } else {
            from_slice_mut(unsafe { std::slice::from_raw_parts_mut(self.data, self.len) })
        }
    }
    pub fn view(&self) -> MemorySlice<NonMutable> {
        if cfg!(miri) {
            let mut v = null();
            unsafe { v.change_slice_unchecked(self.data, self.len) };
            v
        } else {
            from_slice(unsafe { std::slice::from_raw_parts(self.data, self.len) })
        }
    }
    /// the samples equal `model` bit for bit and the surrounding canaries are untouched
    pub fn check(&self, c: &mut Ctx, model: &[f32], what: &str) -> R {
        for i in 0..self.len {
            let v = self.get(i);
            c.obs.evals += 1;
            if v.to_bits() != model[i].to_bits() {
                return Err(viol("contents", format!("{what}: element {i} of {} is {v:?}, expected {:?}; {}", self.len, model[i], c.trace())));
            }
        }
        self.canaries(c, what)
    }
    pub fn canaries(&self, c: &mut Ctx, what: &str) -> R {
        #[cfg(not(miri))]
        if let Some(m) = self.map {
            if m.pages & HUGE == 0 {
                c.obs.evals += 1;
                let cap = m.pages * PAGE / 4;
                let first = unsafe { m.base.add(PAGE) } as *mut u32;
                let off = (self.data as usize - first as usize) / 4;
                for i in (0..off).chain(off + self.len..cap) {
                    if unsafe { first.add(i).read_volatile() } != CANARY {
                        return Err(viol("foreign-write", format!("{what}: memory at element {} of a {}-element buffer was overwritten; {}", i as i64 - off as i64, self.len, c.trace())));
                    }
                }
            }
        }
        let _ = (c, what);
        Ok(())
    }
}
#[cfg(not(miri))]
const HUGE: usize = 1 << 60;

impl Drop for Buf {
    fn drop(&mut self) {
        if let Some((p, l)) = self.heap {
            unsafe { std::alloc::dealloc(p, l) }
        }
        #[cfg(not(miri))]
        if let Some(m) = self.map {
            if m.pages & HUGE != 0 {
                unsafe {
                    libc::munmap(m.base as *mut libc::c_void, ((m.pages & !HUGE) + 2) * PAGE);
                }
            } else {
                let _ = POOL.try_with(|p| p.borrow_mut().push(m));
            }
        }
    }
}

pub fn is_canary(v: f32) -> bool {
    v.to_bits() == CANARY
}

// ---------------------------------------------------------------------------------------------
// Numeric helpers shared by the oracles
// ---------------------------------------------------------------------------------------------

pub const EPS: f64 = f32::EPSILON as f64; // 2^-23

pub fn next_up(x: f32) -> f32 {
    if x.is_nan() || x == f32::INFINITY {
        return x;
    }
    if x == 0.0 {
        return f32::from_bits(1);
    }
    let b = x.to_bits();
    f32::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f32) -> f32 {
    -next_up(-x)
}

/// Lagrange interpolation of samples at nodes 0..n, in double precision.
/// Returns (value, sum of |basis * sample|).
pub fn lagrange64(s: &[f64], x: f64) -> (f64, f64) {
    let n = s.len();
    let (mut y, mut cond) = (0.0, 0.0);
    for i in 0..n {
        let mut l = 1.0;
        for j in 0..n {
            if i != j {
                l *= (x - j as f64) / (i as f64 - j as f64);
            }
        }
        y += l * s[i];
        cond += (l * s[i]).abs();
    }
    (y, cond)
}

/// sine integral in double precision
pub fn si64(x: f64) -> f64 {
    let n = (200.0 + x.abs() * 40.0) as usize / 2 * 2;
    let h = x / n as f64;
    let g = |t: f64| if t == 0.0 { 1.0 } else { t.sin() / t };
    let mut s = g(0.0) + g(x);
    for i in 1..n {
        s += if i % 2 == 1 { 4.0 } else { 2.0 } * g(i as f64 * h);
    }
    s * h / 3.0
}
