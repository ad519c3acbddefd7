//! C43: every call returns after a short time that does not depend on argument magnitudes, buffer
//! lengths or age, and needs little stack.
//!
//! Calls are timed by the wall clock first, which is only a filter: a case with a slow call is run
//! again several times (cases are deterministic) with the thread's own CPU time around every call, and
//! only a call that is slow in every one of these runs counts. Stack is measured by painting the memory
//! below the caller and looking how far down it was overwritten.
use crate::core::*;
use crate::sys::call;
use crate::Prop;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use std::cell::{Cell, RefCell};
use std::time::Instant;

/// CPU time one call may take; ordinary ones stay below a hundredth of it
const SLOW_NS: u64 = 2_000_000;
/// stack one call may need; the sine integral keeps a thousand supporting points and their values there
fn allowance(what: &str) -> usize {
    if what == "si" {
        16 * 1024
    } else {
        4 * 1024
    }
}
const DEPTH: usize = 48 * 1024;
const TRIES: usize = 4;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C43",
        run: c43,
        cases: 6_000,
        systematic: 64,
        miri: 0,
        serial: false,
        rule: "A case times every call of a history of all operations with ordinary and extreme arguments (a quarter of the cases: over views of 2^20 to 2^27 samples; every fiftieth: hundreds of thousands of calls on each instance), and in every fourth case also measures the stack each call needs. Non-trivial: an extreme argument, a giant view or a marathon; distinct by the arguments.",
        required: &["giant view", "marathon", "stack measured", "extreme argument", "effect over a giant view", "swap between giant views"],
    }]
}

#[derive(Clone, Copy, PartialEq)]
enum Clock {
    Off,
    Wall,
    Cpu,
}

thread_local! {
    static CLOCK: Cell<Clock> = const { Cell::new(Clock::Off) };
    static PAINT: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static WORST: Cell<(u64, &'static str)> = const { Cell::new((0, "")) };
    /// (bytes above the allowance, bytes, call)
    static DEEPEST: Cell<(usize, usize, &'static str)> = const { Cell::new((0, 0, "")) };
    static SLOW: RefCell<Vec<(u64, &'static str, u64)>> = const { RefCell::new(Vec::new()) };
}

pub fn on() -> bool {
    CLOCK.with(|c| c.get()) != Clock::Off
}

fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

const PATTERN: u64 = 0x5a5a_c3c3_a5a5_3c3c;
#[inline(always)]
fn sp() -> usize {
    let s: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) s, options(nomem, nostack, preserves_flags)) };
    s
}
#[inline(never)]
fn paint(top: usize) {
    let mut p = top - DEPTH;
    // this function's own frame is above `top`'s reach: it calls nothing and the area starts below it
    while p < top {
        unsafe { (p as *mut u64).write_volatile(PATTERN) };
        p += 8;
    }
}
#[inline(never)]
fn untouched(top: usize) -> usize {
    let mut p = top - DEPTH;
    while p < top && unsafe { (p as *const u64).read_volatile() } == PATTERN {
        p += 8;
    }
    p - (top - DEPTH)
}
#[inline(never)]
fn enter<T>(f: impl FnOnce() -> T) -> T {
    f()
}

/// run one call under the meter
pub fn watch<T>(what: &'static str, f: impl FnOnce() -> T) -> T {
    let n = COUNT.with(|c| c.replace(c.get() + 1));
    let stack = PAINT.with(|p| p.get());
    let mode = CLOCK.with(|c| c.get());
    let top = (sp() & !15) - 256;
    if stack {
        paint(top);
    }
    let (r, ns) = if mode == Clock::Cpu {
        let t = cpu();
        let r = enter(f);
        (r, cpu() - t)
    } else {
        let t = Instant::now();
        let r = enter(f);
        (r, t.elapsed().as_nanos() as u64)
    };
    if stack {
        let left = untouched(top);
        let used = DEPTH - left + 256;
        let over = used.saturating_sub(allowance(what));
        DEEPEST.with(|d| {
            if (over, used) > (d.get().0, d.get().1) {
                d.set((over, used, what))
            }
        });
    }
    if ns > SLOW_NS {
        // (within the capacity reserved: the caller counts allocations)
        SLOW.with(|s| {
            let mut s = s.borrow_mut();
            if s.len() < s.capacity() {
                s.push((n, what, ns))
            }
        });
    }
    WORST.with(|w| {
        if ns > w.get().0 {
            w.set((ns, what))
        }
    });
    r
}

fn pass(c: &mut Ctx, clock: Clock) -> (R, Vec<(u64, &'static str, u64)>) {
    let case = c.case;
    c.begin(case);
    COUNT.with(|x| x.set(0));
    SLOW.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        s.reserve(1000);
    });
    WORST.with(|w| w.set((0, "")));
    DEEPEST.with(|w| w.set((0, 0, "")));
    PAINT.with(|p| p.set(clock == Clock::Wall && case % 4 == 0 && case % 50 != 49));
    CLOCK.with(|x| x.set(clock));
    let r = workload(c);
    CLOCK.with(|x| x.set(Clock::Off));
    PAINT.with(|p| p.set(false));
    (r, SLOW.with(|s| std::mem::take(&mut *s.borrow_mut())))
}

fn c43(c: &mut Ctx) -> R {
    let (r, mut slow) = pass(c, Clock::Wall);
    r?;
    c.max("longest call, wall clock, microseconds", WORST.with(|w| w.get().0) as f64 / 1e3);
    let (excess, used, what) = DEEPEST.with(|d| d.get());
    if used > 0 {
        c.cov("stack measured");
        c.max("deepest stack, bytes", used as f64);

        c.ok(excess == 0, "stack", || format!("{what} needed {used} bytes of stack (or more), allowed are {}", allowance(what)))?;
    }
    let calls = COUNT.with(|x| x.get());
    c.covn("timed call", calls);
    let mut cpu = vec![];
    for _ in 0..TRIES {
        if slow.is_empty() {
            return Ok(());
        }
        c.cov("case run again");
        let (r, again) = pass(c, Clock::Cpu);
        r?;
        slow.retain(|(n, _, _)| again.iter().any(|(m, _, _)| m == n));
        cpu = again;
    }
    if let Some((n, what, _)) = slow.first() {
        let ns = cpu.iter().find(|(m, _, _)| m == n).map_or(0, |x| x.2);
        let t = c.trace();
        return Err(viol("slow", format!("call {n} of this case, {what}, took {ns} ns of CPU time, and more than {SLOW_NS} ns in each of {TRIES} runs; {t}")));
    }
    Ok(())
}

fn workload(c: &mut Ctx) -> R {
    if c.case % 50 == 49 {
        return marathon(c);
    }
    if c.case % 4 == 1 {
        return giant(c);
    }
    crate::sys::every_call(c)
}

/// the length of a view costs nothing
fn giant(c: &mut Ctx) -> R {
    let mut lens = vec![];
    for _ in 0..2 {
        let bits = c.rng.pick(&[20u32, 24, 26, 27]);
        lens.push((1usize << bits) + c.rng.usize(3));
    }
    // (lengths first, so that every run of the case draws the same numbers)
    let (Some(a), Some(b)) = (Buf::huge(lens[0]), Buf::huge(lens[1])) else {
        return Ok(());
    };
    c.cov("giant view");
    c.sig(lens[0] as u64);
    c.sig(lens[1] as u64);
    c.note(|| format!("views of {} and {} samples", lens[0], lens[1]));
    let none = || "over a giant view".to_string();
    let mut g = c.rng.clone();
    let mut v = call(c, "view", none, || a.view_mut())?;
    let w = call(c, "view", none, || b.view())?;
    let n = lens[0];
    for _ in 0..12 {
        let i = match g.below(4) {
            0 => g.usize(n) as isize,
            1 => n as isize * g.range(-3, 3) as isize + g.range(-2, 2) as isize,
            2 => isize::MAX - g.usize(9) as isize,
            _ => isize::MIN + g.usize(9) as isize,
        };
        let x = match g.below(4) {
            0 => g.f(0.0, n as f64),
            1 => g.f(-1e9, 1e9),
            2 => g.pick(&[f32::MAX, f32::MIN, 2147483648.0, -2147483648.0, 16777216.0]),
            _ => n as f32 * g.range(-3, 3) as f32,
        };
        let (o, l) = (g.usize(n), g.usize(n));
        c.sig(i as u64);
        c.sigf(x);
        let at = move || format!("index {i}, position {x:?}, sub-view ({o}, {l}) of {n}");
        call(c, "MemorySlice::get", at, || w.get(i as usize).is_ok())?;
        call(c, "MemorySlice::assign", at, || v.assign(i as usize, 0.5).is_ok())?;
        call(c, "MemorySlice::get_wrapped", at, || v.get_wrapped(i))?;
        call(c, "MemorySlice::get_slice_of_four_wrapped", at, || v.get_slice_of_four_wrapped(i))?;
        call(c, "MemorySlice::lerp", at, || w.lerp(x).is_ok())?;
        call(c, "MemorySlice::lerp_wrapped", at, || w.lerp_wrapped(x))?;
        call(c, "MemorySlice::lagrange_wrapped", at, || w.lagrange_wrapped(x, 100))?;
        call(c, "MemorySlice::lagrange_four_points_wrapped", at, || w.lagrange_four_points_wrapped(x))?;
        call(c, "MemorySlice::get_sub_slice", at, || v.get_sub_slice(o, l).is_ok())?;
    }
    c.cov("effect over a giant view");
    let mut d = call(c, "DelayLine::new", none, || DelayLine::new(v))?;
    let mut k = call(c, "Comb::new", none, || Comb::new(v))?;
    let mut p = call(c, "AllPass::new", none, || AllPass::new(v))?;
    let mut o = WavetableOscillator::new(w, SoftPhaseAccumulator::new(g.f(0.0, 20000.0), 48_000.0));
    for s in 0..40 {
        let x = g.f(-1.0, 1.0);
        let i = g.u64() as isize;
        let y = g.f(-1e9, 1e9);
        match g.below(8) {
            0 if s > 4 => {
                let to = match g.below(4) {
                    0 => v,
                    1 => b.view_mut(),
                    2 => v.get_sub_slice(g.usize(n - 1), 1).unwrap(),
                    _ => v.get_sub_slice(n / 4, n / 2).unwrap(),
                };
                c.cov("swap between giant views");
                call(c, "DelayLine::change_buffer", none, || d.change_buffer(to))?;
                call(c, "Comb::change_buffer", none, || k.change_buffer(to))?;
                call(c, "AllPass::change_buffer", none, || p.change_buffer(to))?;
            }
            1 => {
                call(c, "DelayLine::read_wrapped_at", none, || d.read_wrapped_at(i))?;
                call(c, "DelayLine::read_lerp_wrapped_at", none, || d.read_lerp_wrapped_at(y))?;
                call(c, "DelayLine::read_lagrange_wrapped_at", none, || d.read_lagrange_wrapped_at(y))?;
                call(c, "DelayLine::len", none, || (d.len(), d.get_ptr_slice_mut().len()))?;
            }
            2 => {
                call(c, "Comb::set_dampening", none, || k.set_dampening(x.abs()))?;
                call(c, "Comb::set_feedback", none, || k.set_feedback(x))?;
            }
            _ => {
                call(c, "DelayLine::write_and_advance", none, || d.write_and_advance(x))?;
                call(c, "DelayLine::read", none, || d.read())?;
                call(c, "DelayLine::advance", none, || d.advance())?;
                call(c, "Comb::tick", none, || k.tick(x))?;
                call(c, "AllPass::tick", none, || p.tick(x))?;
                call(c, "WavetableOscillator::next", none, || o.next())?;
            }
        }
    }
    c.nontrivial();
    Ok(())
}

/// neither does age
fn marathon(c: &mut Ctx) -> R {
    let n = (1usize << 24) + c.rng.usize(9);
    let steps = c.rng.pick(&[66_000u64, 70_000, 140_000]) + c.rng.below(999);
    let bufs: Vec<Option<Buf>> = (0..3).map(|_| Buf::huge(n)).collect();
    let (Some(a), Some(b), Some(t)) = (&bufs[0], &bufs[1], &bufs[2]) else {
        return Ok(());
    };
    c.cov("marathon");
    c.sig(steps);
    c.note(|| format!("{steps} steps over views of {n} samples"));
    let mut g = c.rng.clone();
    let f = g.logf(0.1, 20_000.0);
    let sr = 48_000.0f32;
    let none = || String::new();
    let mut d = DelayLine::new(a.view_mut());
    let mut k = Comb::new(b.view_mut());
    let mut p = AllPass::new(t.view_mut());
    let mut q: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
    let mut e = AudioRateADSR::new(0.01, 0.01, 0.5, 0.01, 1.0, sr);
    let mut ac = SoftPhaseAccumulator::new(f, sr);
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
    let mut w = WavetableOscillator::new(t.view(), SoftPhaseAccumulator::new(f / 100.0, sr));
    k.set_feedback(0.7);
    for i in 0..steps {
        // long silences included
        let x = if (i >> 14) & 1 == 0 { g.f(-1.0, 1.0) } else { 0.0 };
        call(c, "DelayLine", none, || {
            d.write_and_advance(x);
            d.read()
        })?;
        call(c, "Comb::tick", none, || k.tick(x))?;
        call(c, "AllPass::tick", none, || p.tick(x))?;
        call(c, "Biquad::process", none, || q.process(x))?;
        call(c, "AudioRateADSR::tick", none, || e.tick())?;
        call(c, "accumulator", none, || ac.next_value())?;
        call(c, "FunctionalOscillator::next", none, || o.next())?;
        call(c, "WavetableOscillator::next", none, || w.next())?;
        if i % 977 == 5 {
            let h = g.below(8);
            let y = g.f(0.0, 1.0);
            call(c, "settings", none, || match h {
                0 => q.coeffs.bell(y * 20_000.0, 0.7, 2.0, sr),
                1 => e.trigger_on(),
                2 => e.trigger_off(),
                3 => o.set_wave(Waveform::Triangle),
                4 => ac.set_freq_unchecked(y),
                5 => k.set_dampening(y),
                6 => e.reset(),
                _ => e.set_attack(y),
            })?;
        }
    }
    c.nontrivial();
    Ok(())
}
