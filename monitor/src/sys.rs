//! C37 (totality), C38 (effects carved from one memory block), C39 (settings).
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::convert::{Decibels, FromF32Components, FromRawBytes, ToF32Components, ToRawBytes};
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::fixed_point::math::sin_i16;
use embedded_audio_tools::float::{bit_reduce, bit_reduce_exp, bit_reduce_exp_unchecked, bit_reduce_unchecked, lagrange, lerp, lerp_unchecked, AdditionalF32Ext, DSPUtility};
use embedded_audio_tools::memory_access::{null_mut, MemorySlice, Mutable};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::{crossfade_correlated_unchecked, mono_pan, mono_pan_unchecked, stereo_pan, stereo_pan_unchecked};
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C37",
            run: c37,
            cases: 120_000,
            systematic: 64,
            miri: 3,
            serial: false,
            rule: "A case calls every operation of the crate with ordinary, boundary and extreme arguments (every class of float, integer limits) on one small or large buffer, each call watched for panics and heap allocations. Non-trivial: at least one argument is non-finite, at an integer limit or out of range; distinct by the hash of the arguments.",
            required: &["buffer", "empty buffer", "delay line", "comb", "all-pass", "biquad", "envelope", "accumulator", "oscillator", "wavetable", "numeric", "extreme argument", "history call", "marathon"],
        },
        Prop {
            id: "C38",
            run: c38,
            cases: 30_000,
            systematic: 32,
            miri: 3,
            serial: false,
            rule: "A case carves two to eight regions out of one block through nested sub-views, runs effects on all of them in random interleaving with each other, table oscillators and outside writes, next to twins over buffers of their own, and judges every output against the twin and against what the block holds at that moment, then every region, every gap and the block's surroundings. Non-trivial: at least two effects wrapped around their region; distinct by layout and call sequence.",
            required: &["delay line", "comb", "all-pass", "live table", "neighbours touch", "gap", "nested sub-view", "region wrapped around", "region swapped", "two effects on one region", "copy taken", "written from outside", "no buffer for a while"],
        },
        Prop {
            id: "C39",
            run: c39,
            cases: 60_000,
            systematic: 64,
            miri: 3,
            serial: false,
            rule: "A case runs two instances with the same inputs, one configured directly and one over a detour (other values first, other setter order, settings repeated mid-stream, a reset), and compares every output bit for bit. Non-trivial: at least one detour was taken; distinct by kind and settings.",
            required: &["accumulator", "functional oscillator", "wavetable oscillator", "comb", "biquad", "envelope", "repeated mid-stream", "other value first", "setter order", "constructor replaced by setters", "after reset", "design over design", "odd envelope settings"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// Heap observation: every allocation of this thread is counted
// ---------------------------------------------------------------------------------------------

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static HEAP: Counting = Counting;

/// one watched call
pub fn call<T>(c: &mut Ctx, what: &'static str, args: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Viol> {
    c.obs.evals += 1;
    let before = ALLOCS.with(|a| a.get());
    #[cfg(not(miri))]
    let r = if crate::rt::on() { crate::rt::watch(what, || catch_unwind(AssertUnwindSafe(f))) } else { catch_unwind(AssertUnwindSafe(f)) };
    #[cfg(miri)]
    let r = catch_unwind(AssertUnwindSafe(f));
    let after = ALLOCS.with(|a| a.get());
    match r {
        Err(_) => Err(viol("panic", format!("{what}({}) panicked: {}", args(), LAST_PANIC.with(|p| p.borrow().clone())))),
        Ok(_) if after != before => Err(viol("allocates", format!("{what}({}) allocated heap memory {} times", args(), after - before))),
        Ok(v) => Ok(v),
    }
}

// ---------------------------------------------------------------------------------------------
// C37
// ---------------------------------------------------------------------------------------------

/// a float of any class
fn wild(g: &mut Rng) -> f32 {
    let x = match g.below(8) {
        0 => g.pick(&[
            0.0f32, -0.0, 1.0, -1.0, 0.5, -0.5, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, -1e-45, f32::EPSILON,
        ]),
        1 => {
            let b = g.pick(&[16i32, 24, 31, 32, 63, 64, 127]);
            let v = 2f32.powi(b) * g.pick(&[1.0f32, -1.0]);
            match g.below(3) {
                0 => next_up(v),
                1 => next_down(v),
                _ => v,
            }
        }
        2 => g.range(-1000, 1000) as f32,
        3 => g.f(-4.0, 4.0),
        4 => g.logf(1e-6, 1e6) * g.pick(&[1.0f32, -1.0]),
        5 => f32::from_bits(g.pick(&[0x7f80_0001u32, 0xffc0_0000, 0x7fff_ffff, 0x007f_ffff, 0x8000_0001, 0x7f7f_ffff])),
        6 => g.range(-64, 64) as f32 / 8.0 * std::f32::consts::PI,
        _ => g.bits(),
    };
    if cfg!(miri) && x.is_nan() {
        // which NaN is not specified
        return f32::NAN;
    }
    x
}
fn index(g: &mut Rng, n: usize) -> isize {
    match g.below(6) {
        0 => isize::MAX - g.usize(5) as isize,
        1 => isize::MIN + g.usize(5) as isize,
        2 => g.range(-3, n as i64 + 3) as isize,
        3 => (1isize << g.below(isize::BITS as u64 - 1)) * g.pick(&[1isize, -1]),
        4 => n as isize * g.range(-3, 3) as isize + g.range(-1, 1) as isize,
        _ => g.u64() as isize,
    }
}
fn place(g: &mut Rng) -> f32 {
    let x = match g.below(5) {
        0 => g.range(-4_194_303, 4_194_303) as f32,
        1 => wild(g),
        2 => g.logf(1e6, 3.4e38) * g.pick(&[1.0f32, -1.0]),
        _ => g.f(-40.0, 40.0),
    };
    if !x.is_finite() {
        g.f(-4e6, 4e6)
    } else {
        x
    }
}
fn hostile(x: f32) -> bool {
    !x.is_finite() || x.abs() >= 2147483648.0 || (x != 0.0 && x.abs() < f32::MIN_POSITIVE)
}

fn c37(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 10_000) {
        return crate::long::run(c, k);
    }
    every_call(c)
}

/// a history of every operation of the crate with arguments of every class
pub fn every_call(c: &mut Ctx) -> R {
    let mut g = c.rng.clone();
    let n = if c.small() { 1 + g.usize(9) } else if g.chance(1, 30) { g.len(5000) } else { 1 + g.usize(12) };
    let init: Vec<f32> = (0..n).map(|_| if g.chance(1, 4) { wild(&mut g) } else { g.sample() }).collect();
    let buf = Buf::new(c, &init);
    let other = Buf::new(c, &[0.25, -0.5, 0.75]);
    let rounds = if c.small() { 2 } else { 6 };
    for _ in 0..rounds {
        let (x, y, z, u) = (wild(&mut g), wild(&mut g), wild(&mut g), wild(&mut g));
        for v in [x, y, z, u] {
            c.sigf(v);
        }
        let i = index(&mut g, n);
        let w = match g.below(3) {
            0 => g.usize(n + 3),
            _ => index(&mut g, n) as usize,
        };
        let w2 = match g.below(3) {
            0 => g.usize(n + 3),
            _ => index(&mut g, n) as usize,
        };
        c.sig(i as u64);
        c.sig(w as u64);
        if [x, y, z, u].iter().any(|v| hostile(*v)) || w > n || i < 0 || i as usize > n {
            c.cov("extreme argument");
            c.nontrivial();
        }
        let a = move || format!("x {x:?}, y {y:?}, z {z:?}, u {u:?}, i {i}, w {w}, w2 {w2}, length {n}");
        let p = place(&mut g);
        let ap = move || format!("position {p:?}, window {w}, length {n}");

        // --- buffer views
        c.cov("buffer");
        let mut v = buf.view_mut();
        let r = buf.view();
        call(c, "MemorySlice::get", a, || v.get(w).is_ok())?;
        call(c, "MemorySlice::get", a, || r.get(w2).is_ok())?;
        call(c, "MemorySlice::assign", a, || v.assign(w, x).is_ok())?;
        call(c, "MemorySlice::get_wrapped", a, || v.get_wrapped(i))?;
        call(c, "MemorySlice::get_slice_of_four_wrapped", a, || v.get_slice_of_four_wrapped(i))?;
        call(c, "MemorySlice::lerp", a, || v.lerp(x).is_ok())?;
        call(c, "MemorySlice::lerp_wrapped", a, || v.lerp_wrapped(x))?;
        call(c, "MemorySlice::lagrange_wrapped", ap, || v.lagrange_wrapped(p, w))?;
        call(c, "MemorySlice::lagrange_four_points_wrapped", a, || v.lagrange_four_points_wrapped(x))?;
        call(c, "MemorySlice::get_sub_slice", a, || v.get_sub_slice(w, w2).is_ok())?;
        call(c, "MemorySlice::len", a, || (v.len(), r.len(), v.as_slice().len(), v.as_slice_mut().len()))?;
        // --- nothing to read
        c.cov("empty buffer");
        let mut e: MemorySlice<Mutable> = match g.below(3) {
            0 => embedded_audio_tools::memory_access::null_mut(),
            1 => MemorySlice::default(),
            _ => v.get_sub_slice(g.usize(n), 0).ok().unwrap(),
        };
        call(c, "empty get", a, || e.get(w).is_ok())?;
        call(c, "empty assign", a, || e.assign(w, x).is_ok())?;
        call(c, "empty lerp", a, || e.lerp(x).is_ok())?;
        call(c, "empty get_sub_slice", a, || e.get_sub_slice(w, w2).is_ok())?;
        // --- effects
        for empty in [false, true] {
            let start = if empty { e } else { v };
            let steps = g.usize(if n < 50 { 2 * n + 2 } else { 20 });
            let mut d = DelayLine::new(start);
            c.cov("delay line");
            for _ in 0..steps {
                call(c, "DelayLine::advance", a, || d.advance())?;
            }
            for k in 0..4 {
                if k == 3 {
                    let to = if g.chance(1, 2) { e } else { other.view_mut() };
                    call(c, "DelayLine::change_buffer", a, || d.change_buffer(to))?;
                }
                call(c, "DelayLine::read", a, || d.read())?;
                call(c, "DelayLine::read_wrapped_at", a, || d.read_wrapped_at(i))?;
                call(c, "DelayLine::read_lerp_wrapped_at", a, || d.read_lerp_wrapped_at(x))?;
                call(c, "DelayLine::read_lagrange_wrapped_at", ap, || d.read_lagrange_wrapped_at(p))?;
                call(c, "DelayLine::write_and_advance", a, || d.write_and_advance(y))?;
                call(c, "DelayLine::len", a, || (d.len(), d.get_ptr_slice_mut().len()))?;
            }
            let mut k = Comb::new(start);
            c.cov("comb");
            for s in 0..steps + 4 {
                match g.below(6) {
                    0 => call(c, "Comb::set_feedback", a, || k.set_feedback(x))?,
                    1 => call(c, "Comb::set_dampening", a, || k.set_dampening(y))?,
                    2 if s > 4 => {
                        let to = if g.chance(1, 2) { e } else { other.view_mut() };
                        call(c, "Comb::change_buffer", a, || k.change_buffer(to))?
                    }
                    _ => {
                        call(c, "Comb::tick", a, || k.tick(z))?;
                    }
                }
            }
            let mut k = AllPass::new(start);
            c.cov("all-pass");
            for s in 0..steps + 4 {
                if s > 4 && g.chance(1, 6) {
                    let to = if g.chance(1, 2) { e } else { other.view_mut() };
                    call(c, "AllPass::change_buffer", a, || k.change_buffer(to))?
                } else {
                    call(c, "AllPass::tick", a, || k.tick(z))?;
                }
            }
        }
        // --- biquad
        c.cov("biquad");
        let mut q: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
        for _ in 0..3 {
            let op = g.below(10);
            let (fc, qq, s, gain) = if g.chance(1, 2) { (x, y, z, u) } else { (g.logf(1.0, 90000.0), g.logf(1e-3, 1e3), g.pick(&[0.0f32, 1.0, 8000.0, 44100.0, 192000.0]), wild(&mut g)) };
            call(c, "biquad design", move || format!("{op}: fc {fc:?}, q {qq:?}, sr {s:?}, gain {gain:?}"), || design(&mut q.coeffs, op, fc, qq, gain, s))?;
            for _ in 0..3 {
                call(c, "Biquad::process", a, || q.process(x))?;
            }
        }
        // --- envelope: sample rate 100 Hz to 192 kHz, anything else arbitrary
        c.cov("envelope");
        let sr = if g.chance(1, 3) { g.pick(&[100.0f32, 192_000.0, 44_100.0]) } else { g.logf(100.0, 192_000.0) };
        let ae = move || format!("x {x:?}, y {y:?}, z {z:?}, u {u:?}, sr {sr:?}");
        let mut en = call(c, "AudioRateADSR::new", ae, || AudioRateADSR::new(x, y, z, u, x, sr))?;
        if g.chance(1, 2) {
            en = call(c, "AudioRateADSR::new", ae, || AudioRateADSR::new(0.0001, 0.0001, 0.5, 0.0001, 1.0, sr))?;
        }
        for _ in 0..24 {
            c.cov("history call");
            let t = wild(&mut g);
            let at = move || format!("{t:?} at {sr:?}");
            let sr2 = g.logf(100.0, 192_000.0);
            match g.below(14) {
                0 => call(c, "set_attack", at, || en.set_attack(t))?,
                1 => call(c, "set_decay", at, || en.set_decay(t))?,
                2 => call(c, "set_sustain", at, || en.set_sustain(t))?,
                3 => call(c, "set_release", at, || en.set_release(t))?,
                4 => call(c, "set_slope", at, || en.set_slope(t))?,
                5 => call(c, "set_sr", at, || en.set_sr(sr2))?,
                6 | 7 => call(c, "trigger_on", at, || en.trigger_on())?,
                8 => call(c, "trigger_off", at, || en.trigger_off())?,
                9 => call(c, "reset", at, || en.reset())?,
                _ => {
                    call(c, "tick", at, || (en.tick(), en.get_state() as u32))?;
                }
            }
        }
        // --- oscillators
        c.cov("accumulator");
        let mut acc = call(c, "SoftPhaseAccumulator::new", a, || SoftPhaseAccumulator::new(x, y))?;
        for _ in 0..8 {
            let t = wild(&mut g);
            let at = move || format!("{t:?} after new({x:?}, {y:?})");
            match g.below(6) {
                0 => {
                    call(c, "set_freq", at, || acc.set_freq(t).is_ok())?;
                }
                1 => call(c, "set_freq_unchecked", at, || acc.set_freq_unchecked(t))?,
                2 => call(c, "set_sr_unchecked", at, || acc.set_sr_unchecked(t))?,
                3 => {
                    let s = g.u32();
                    call(c, "set_phase_shift", at, || acc.set_phase_shift(s))?
                }
                4 => {
                    call(c, "next_value", at, || acc.next_value())?;
                }
                _ => {
                    call(c, "next_value_normalized", at, || acc.next_value_normalized())?;
                }
            }
        }
        c.cov("oscillator");
        let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(x, y));
        let mut t = WavetableOscillator::new(r, SoftPhaseAccumulator::new(x, y));
        c.cov("wavetable");
        for k in 0..8 {
            let s = wild(&mut g);
            let at = move || format!("{s:?} after new({x:?}, {y:?}), table of {n}");
            match g.below(8) {
                0 => call(c, "set_freq_unchecked", at, || (o.set_freq_unchecked(s), t.set_freq_unchecked(s)).0)?,
                1 => call(c, "set_phase_shift_unchecked", at, || (o.set_phase_shift_unchecked(s), t.set_phase_shift_unchecked(s)).0)?,
                2 => call(c, "set_sr_unchecked", at, || (o.set_sr_unchecked(s), t.set_sr_unchecked(s)).0)?,
                _ => {
                    let wv = wave(k as u64);
                    call(c, "FunctionalOscillator::next", at, || {
                        o.set_wave(wv);
                        o.next()
                    })?;
                    call(c, "WavetableOscillator::next", at, || t.next())?;
                }
            }
        }
        // --- numbers
        c.cov("numeric");
        call(c, "lookup_sin", a, || x.lookup_sin())?;
        call(c, "lookup_bl_rect", a, || x.lookup_bl_rect())?;
        call(c, "fixed_point_sin", a, || x.fixed_point_sin())?;
        call(c, "fixed_point_cos", a, || x.fixed_point_cos())?;
        call(c, "fast_tan", a, || x.fast_tan())?;
        call(c, "tanh", a, || AdditionalF32Ext::tanh(&x))?;
        call(c, "sinc", a, || x.sinc())?;
        if g.chance(1, 40) {
            call(c, "si", a, || x.si())?;
        }
        let h = if x.abs() <= 85.0 { x } else { g.f(-85.0, 85.0) };
        call(c, "sinh", move || format!("{h:?}"), || AdditionalF32Ext::sinh(&h))?;
        call(c, "cosh", move || format!("{h:?}"), || AdditionalF32Ext::cosh(&h))?;
        call(c, "to_decibels", a, || (x.to_decibels().is_ok(), x.to_decibels_unchecked()))?;
        let d = if x.abs() <= 700.0 || x == f32::NEG_INFINITY { x } else { g.f(-700.0, 700.0) };
        call(c, "to_volt_ratio", move || format!("{d:?}"), || d.to_volt_ratio())?;
        call(c, "lerp", a, || (lerp(x, y, z).is_ok(), lerp_unchecked(x, y, z)))?;
        let nodes = &init[..n.min(40)];
        let top = (nodes.len() - 1) as f32;
        let q = if x <= top { x } else { g.f(-1.0, 1.0).min(top) };
        call(c, "lagrange", move || format!("{q:?} over {}", top + 1.0), || lagrange(nodes, q))?;
        let depth = w as u8;
        call(c, "bit_reduce", move || format!("{x:?}, {depth}"), || (bit_reduce(x, depth).is_ok(), bit_reduce_exp(x, depth).is_ok()))?;
        call(c, "bit_reduce_unchecked", move || format!("{x:?}, {}", depth % 31), || bit_reduce_unchecked(x, depth % 31))?;
        call(c, "bit_reduce_exp_unchecked", move || format!("{x:?}, {}", depth % 24), || bit_reduce_exp_unchecked(x, depth % 24))?;
        call(c, "mono_pan", a, || (mono_pan(x, y).is_ok(), mono_pan_unchecked(x, y)))?;
        call(c, "stereo_pan", a, || (stereo_pan(x, (y, z)).is_ok(), stereo_pan_unchecked(x, (y, z))))?;
        call(c, "crossfade_correlated_unchecked", a, || crossfade_correlated_unchecked(x, (y, z)))?;
        call(c, "sin_i16", a, || sin_i16(w as i16, depth))?;
        call(c, "digital_clip", a, || digital_clip(x))?;
        call(c, "time conversions", a, || (x.samples_to_seconds(y), x.samples_to_millis(y), x.seconds_to_samples(y), x.millis_to_samples(y)))?;
        let bits = g.u32();
        call(c, "decomposition", move || format!("{bits:#x}"), || {
            let f = bits.to_f32_components();
            let again = u32::from_f32_components(f);
            let w = f32::from_raw_word(bits);
            (again, w.to_raw_word(), f32::from_f32_components(w.to_f32_components()).to_bits())
        })?;
    }
    buf.canaries(c, "after every operation")?;
    let l = format!("{rounds} rounds over {n} samples");
    c.sample(|| l);
    Ok(())
}

fn wave(k: u64) -> Waveform {
    match k % 4 {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    }
}

fn design(q: &mut BiquadCoeffs<Butterworth>, op: u64, fc: f32, w: f32, gain: f32, sr: f32) {
    match op {
        0 => q.lowpass(fc, w, sr),
        1 => q.highpass(fc, w, sr),
        2 => q.allpass(fc, w, sr),
        3 => q.notch(fc, w, sr),
        4 => q.bell_boost_only(fc, w, gain, sr),
        5 => q.bell_cut_only(fc, w, gain, sr),
        6 => q.bell(fc, w, gain, sr),
        7 => q.low_shelf_boost_only(fc, w, gain, sr),
        8 => q.low_shelf_cut_only(fc, w, gain, sr),
        _ => q.low_shelf(fc, w, gain, sr),
    }
}

/// bits of an output; which NaN an operation yields is not specified
fn bits(v: f32) -> u32 {
    if v.is_nan() {
        0x7fc0_0000
    } else {
        v.to_bits()
    }
}

// ---------------------------------------------------------------------------------------------
// C38
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
enum Fx {
    Delay(DelayLine),
    Comb(Comb),
    AllPass(AllPass),
}
impl Fx {
    fn new(kind: u64, v: MemorySlice<Mutable>) -> Fx {
        match kind {
            0 => Fx::Delay(DelayLine::new(v)),
            1 => Fx::Comb(Comb::new(v)),
            _ => Fx::AllPass(AllPass::new(v)),
        }
    }
    fn step(&mut self, op: u64, x: f32, at: i64) -> f32 {
        match self {
            Fx::Delay(d) => match op % 6 {
                0 => d.read_wrapped_at(at as isize),
                1 => d.read_lerp_wrapped_at(at as f32 / 4.0),
                2 => d.read_lagrange_wrapped_at(at as f32 / 4.0),
                3 => {
                    d.advance();
                    d.read()
                }
                _ => {
                    let y = d.read();
                    d.write_and_advance(x);
                    y
                }
            },
            Fx::Comb(k) => match op % 12 {
                0 => {
                    k.set_feedback(x * 0.9);
                    0.0
                }
                1 => {
                    k.set_dampening(x.abs().min(1.0));
                    0.0
                }
                _ => k.tick(x),
            },
            Fx::AllPass(k) => k.tick(x),
        }
    }
    fn swap(&mut self, v: MemorySlice<Mutable>) {
        match self {
            Fx::Delay(k) => k.change_buffer(v),
            Fx::Comb(k) => k.change_buffer(v),
            Fx::AllPass(k) => k.change_buffer(v),
        }
    }
    fn raw(&mut self) -> *mut [f32] {
        match self {
            Fx::Delay(k) => k.get_ptr_slice_mut(),
            Fx::Comb(k) => k.get_ptr_slice_mut(),
            Fx::AllPass(k) => k.get_ptr_slice_mut(),
        }
    }
    fn advances(&self, op: u64) -> bool {
        match self {
            Fx::Delay(_) => op % 6 >= 3,
            Fx::Comb(_) => op % 12 >= 2,
            Fx::AllPass(_) => true,
        }
    }
}

/// a region of the block reached through `depth` nested sub-views
fn carve(c: &mut Ctx, block: MemorySlice<Mutable>, total: usize, off: usize, len: usize) -> Result<MemorySlice<Mutable>, Viol> {
    let (mut v, mut lo, mut hi) = (block, 0usize, total);
    let depth = c.rng.usize(3);
    if depth > 0 {
        c.cov("nested sub-view");
    }
    for _ in 0..depth {
        let a = lo + c.rng.usize(off - lo + 1);
        let b = off + len + c.rng.usize(hi - off - len + 1);
        v = v.get_sub_slice(a - lo, b - a).map_err(|e| viol("refused", format!("sub-view {a}..{b} of {lo}..{hi}: {e:?}")))?;
        lo = a;
        hi = b;
    }
    v.get_sub_slice(off - lo, len).map_err(|e| viol("refused", format!("sub-view {off}..{} of {lo}..{hi}: {e:?}", off + len)))
}

struct Voice {
    region: usize,
    here: Fx,
    twin: Fx,
    kind: u64,
    /// slot the effect stands at, while known
    pos: Option<usize>,
}

fn c38(c: &mut Ctx) -> R {
    // layout: regions with gaps of 0..=3 samples
    let small = c.small();
    let regions = 2 + c.rng.usize(if small { 2 } else { 7 });
    let mut lay: Vec<(usize, usize)> = vec![];
    let mut at = 0;
    for k in 0..regions {
        let gap = if c.rng.chance(1, 2) { 0 } else { 1 + c.rng.usize(3) };
        c.cov(if gap > 0 { "gap" } else if k > 0 { "neighbours touch" } else { "starts at the block" });
        at += gap;
        let len = if small { 1 + c.rng.usize(5) } else if c.rng.chance(1, 25) { 1 + c.rng.usize(400) } else if c.rng.chance(1, 5) { 1 } else { 1 + c.rng.usize(14) };
        lay.push((at, len));
        c.sig((at * 4096 + len) as u64);
        at += len;
    }
    let total = at + c.rng.usize(3);
    let init: Vec<f32> = (0..total).map(|_| c.rng.sample()).collect();
    let block = Buf::new(c, &init);
    let own: Vec<Buf> = lay.iter().map(|(o, l)| Buf::new(c, &init[*o..*o + *l])).collect();
    let mut voices: Vec<Voice> = vec![];
    for r in 0..regions {
        let n = if c.rng.chance(1, 4) { 2 } else { 1 };
        if n == 2 {
            c.cov("two effects on one region");
        }
        for _ in 0..n {
            let kind = c.rng.below(3);
            c.sig(kind);
            c.cov(["delay line", "comb", "all-pass"][kind as usize]);
            let v = carve(c, block.view_mut(), total, lay[r].0, lay[r].1)?;
            voices.push(Voice { region: r, here: Fx::new(kind, v), twin: Fx::new(kind, own[r].view_mut()), kind, pos: Some(0) });
        }
    }
    // an oscillator whose table is a region an effect is writing
    let tr = c.rng.usize(regions);
    let mut table = None;
    if c.rng.chance(2, 3) {
        c.cov("live table");
        let f = if c.rng.chance(1, 2) { c.rng.f(10.0, 4000.0) } else { c.rng.logf(0.1, 100.0) };
        let (o, l) = lay[tr];
        let v = block.view().get_sub_slice(o, l).map_err(|e| viol("refused", format!("table {o}+{l}: {e:?}")))?;
        table = Some((
            WavetableOscillator::new(v, SoftPhaseAccumulator::new(f, 48000.0)),
            WavetableOscillator::new(own[tr].view(), SoftPhaseAccumulator::new(f, 48000.0)),
            SoftPhaseAccumulator::new(f, 48000.0),
        ));
    }
    let mut moved = vec![0usize; voices.len()];
    let steps = if small { 40 } else { 60 + c.rng.usize(240) };
    let mut carry = 0.0f32;
    for t in 0..steps {
        let k = c.rng.usize(voices.len());
        let op = c.rng.u64() >> 8;
        let at = c.rng.range(-200, 200);
        // parallel and serial wiring: now and then an output feeds the next effect
        let x = if c.rng.chance(1, 3) { carry.clamp(-8.0, 8.0) } else { c.rng.f(-1.0, 1.0) };
        c.sig(mix(k as u64 ^ op));
        let away = c.rng.chance(1, 120);
        if away {
            // without any buffer for a few calls
            c.cov("no buffer for a while");
            c.note(|| format!("{t}: effect {k} loses its buffer"));
            let here = match c.rng.below(2) {
                0 => null_mut(),
                _ => block.view_mut().get_sub_slice(lay[voices[k].region].0, 0).map_err(|e| viol("refused", format!("empty sub-view: {e:?}")))?,
            };
            voices[k].here.swap(here);
            voices[k].twin.swap(null_mut());
            let before: Vec<u32> = (0..total).map(|j| bits(block.get(j))).collect();
            for _ in 0..1 + c.rng.usize(4) {
                let (op, x) = (c.rng.u64() >> 8, c.rng.f(-1.0, 1.0));
                let (ya, yb) = (voices[k].here.step(op, x, at), voices[k].twin.step(op, x, at));
                c.ok(bits(ya) == bits(yb), "output-empty", || format!("effect {k} (kind {}) over an empty piece of the block returned {ya:?}, over no buffer {yb:?}", voices[k].kind))?;
            }
            let changed = (0..total).find(|j| bits(block.get(*j)) != before[*j]);
            c.ok(changed.is_none(), "wrote-empty", || format!("effect {k} (kind {}) has no buffer but changed sample {changed:?} of the block", voices[k].kind))?;
        }
        if away || c.rng.chance(1, 20) {
            // the same region again, or another one
            let r = c.rng.usize(regions);
            c.cov("region swapped");
            c.note(|| format!("{t}: effect {k} moves from region {} to {r}", voices[k].region));
            let v = carve(c, block.view_mut(), total, lay[r].0, lay[r].1)?;
            let before: Vec<u32> = (0..total).map(|j| bits(block.get(j))).collect();
            voices[k].here.swap(v);
            let changed = (0..total).find(|j| bits(block.get(*j)) != before[*j]);
            c.ok(changed.is_none(), "swap-wrote", || format!("effect {k} (kind {}) moved from region {} to {r} and changed sample {changed:?} of the block; layout {lay:?}", voices[k].kind, voices[k].region))?;
            voices[k].twin.swap(own[r].view_mut());
            voices[k].region = r;
            voices[k].pos = None;
        }
        if c.rng.chance(1, 80) && voices.len() < 12 {
            // a copy goes on by itself over the same samples
            c.cov("copy taken");
            c.note(|| format!("{t}: copy of effect {k}"));
            let (region, here, twin, kind, pos) = (voices[k].region, voices[k].here, voices[k].twin, voices[k].kind, voices[k].pos);
            voices.push(Voice { region, here, twin, kind, pos });
            moved.push(0);
        }
        if c.rng.chance(1, 10) {
            // somebody else writes into a region
            let r = c.rng.usize(regions);
            let (o, l) = lay[r];
            let (j, v) = (c.rng.usize(l), c.rng.f(-1.0, 1.0));
            c.cov("written from outside");
            c.note(|| format!("{t}: sample {j} of region {r} set to {v:?}"));
            block.view_mut().assign(o + j, v).map_err(|e| viol("refused", format!("write of {} in a block of {total}: {e:?}", o + j)))?;
            own[r].view_mut().assign(j, v).map_err(|e| viol("refused", format!("write of {j} in {l}: {e:?}")))?;
        }
        if c.rng.chance(1, 12) {
            if let Some((a, b, acc)) = &mut table {
                let (ya, yb, p) = (a.next(), b.next(), acc.next_value_normalized());
                c.ok(bits(ya) == bits(yb), "table", || format!("step {t}: oscillator over region {tr} of the block returned {ya:?}, over its own table {yb:?}"))?;
                // and both follow what the table holds now
                let (o, l) = lay[tr];
                let q = p as f64 * l as f64;
                let (i, slack) = ((q.floor() as usize).min(l - 1), 4e-7 * l as f64);
                let at = |i: usize| block.get(o + i % l) as f64;
                let (u, v) = (at(i), at(i + 1));
                let step = [at(i + l - 1) - u, v - u, at(i + 2) - v].iter().fold(0.0f64, |m, x| m.max(x.abs()));
                let want = u + (v - u) * (q - i as f64);
                let tol = slack * step + 4e-7 * (u.abs() + v.abs()) + 1e-40;
                c.near(ya as f64, want, tol, "table-now", || format!("step {t}: oscillator at phase {p:?} over region {tr} ({l} samples)"))?;
            }
        }
        let v = &mut voices[k];
        c.note(|| format!("{t}: effect {k} (kind {}, region {}) op {} input {x:?}", v.kind, v.region, op % 12));
        let (o, l) = lay[v.region];
        let slot = |i: i64| block.get(o + i.rem_euclid(l as i64) as usize);
        let before: Vec<f32> = if v.pos.is_none() { (0..l as i64).map(slot).collect() } else { vec![] };
        let stood = v.pos.map(|p| (p, slot(p as i64)));
        let (ya, yb) = (v.here.step(op, x, at), v.twin.step(op, x, at));
        let tr = c.trace();
        if let Some((p, d)) = stood {
            // what the block held when the effect was called decides what it returns and stores
            let who = || format!("effect {k} of kind {} at slot {p} of region {o}+{l} holding {d:?}; {tr}", v.kind);
            match (v.kind, op % 6) {
                (0, 0) => c.ok(bits(ya) == bits(slot(p as i64 + at)), "current", || format!("whole tap {at} returned {ya:?}, the block holds {:?}; {}", slot(p as i64 + at), who()))?,
                (0, 1) | (0, 2) => {
                    let i = p as i64 + at.div_euclid(4);
                    let f = at.rem_euclid(4) as f64 / 4.0;
                    if op % 6 == 1 || f == 0.0 {
                        let (u, w) = (slot(i) as f64, slot(i + 1) as f64);
                        let peak = (-4..=4).map(|j| slot(i + j).abs() as f64).fold(0.0, f64::max);
                        c.near(ya as f64, u + (w - u) * f, 2e-6 * peak + 1e-40, "current", || format!("tap at {at}/4, {}", who()))?;
                    }
                }
                (0, 3) => c.ok(bits(ya) == bits(slot(p as i64 + 1)), "current", || format!("after an advance read {ya:?}, {}", who()))?,
                (0, _) => c.ok(bits(ya) == bits(d) && bits(slot(p as i64)) == bits(x), "current", || format!("read {ya:?} and then stored {:?} for {x:?}, {}", slot(p as i64), who()))?,
                (1, _) if op % 12 >= 2 => c.ok(bits(ya) == bits(d), "current", || format!("comb returned {ya:?}, {}", who()))?,
                (1, _) => {}
                _ => {
                    let (x, d, tol) = (x as f64, d as f64, 3e-7 * (x.abs() as f64 + d.abs() as f64) + 1e-40);
                    c.near(ya as f64, d - x, tol, "current", || format!("all-pass given {x:?}, {}", who()))?;
                    c.near(slot(p as i64) as f64, x + d / 2.0, tol, "current", || format!("all-pass given {x:?} stored this, {}", who()))?;
                }
            }
        }
        if v.here.advances(op) {
            moved[k] += 1;
            v.pos = match stood {
                Some((p, _)) => Some((p + 1) % l),
                None => {
                    // found again by the slot that was written
                    let diff: Vec<usize> = (0..l).filter(|j| bits(slot(*j as i64)) != bits(before[*j])).collect();
                    if diff.len() == 1 { Some((diff[0] + 1) % l) } else { None }
                }
            };
        }
        carry = ya;
        let raw = v.here.raw();
        c.ok(bits(ya) == bits(yb), "output", || format!("effect {k} in the block returned {ya:?}, over its own buffer {yb:?}; layout {lay:?} of {total}; {tr}"))?;
        let want = block.view_mut().as_slice_mut() as *mut f32 as usize + 4 * o;
        c.ok(raw.len() == l && raw as *mut f32 as usize == want, "where", || format!("effect {k} reports a buffer of {} samples at {:#x}, its region has {l} at {want:#x}; {tr}", raw.len(), raw as *mut f32 as usize))?;
    }
    // the block is the regions plus untouched gaps
    let mut want = init.clone();
    for (r, (o, l)) in lay.iter().enumerate() {
        for j in 0..*l {
            want[o + j] = own[r].get(j);
        }
    }
    block.check(c, &want, "the whole block")?;
    for b in &own {
        b.canaries(c, "a twin's buffer")?;
    }
    let wrapped = voices.iter().zip(&moved).filter(|(v, m)| **m > lay[v.region].1).count();
    c.covn("region wrapped around", wrapped as u64);
    if wrapped >= 2 {
        c.nontrivial();
    }
    let t = format!("regions {lay:?} of {total}, {} effects, {steps} calls", voices.len());
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C39
// ---------------------------------------------------------------------------------------------

fn c39(c: &mut Ctx) -> R {
    let kind = c.case % 7;
    c.sig(kind);
    match kind {
        0 => c39_acc(c),
        1 => c39_osc(c, true),
        2 => c39_osc(c, false),
        3 => c39_comb(c),
        4 => c39_biquad(c),
        5 => c39_env(c),
        _ => c39_env_reset(c),
    }?;
    c.nontrivial();
    Ok(())
}

/// a random order of 0..n
fn order(c: &mut Ctx, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.rng.usize(i + 1);
        v.swap(i, j);
    }
    v
}

fn c39_acc(c: &mut Ctx) -> R {
    c.cov("accumulator");
    let sr = c.rng.pick(&[8000.0f32, 22_050.0, 44_100.0, 48_000.0, 96_000.0, 192_000.0, 47_999.5]);
    let f = c.rng.f(0.5, sr as f64 * 0.49);
    let shift = c.rng.u32();
    c.sigf(f);
    c.sig(shift as u64);
    let mut a = SoftPhaseAccumulator::new(f, sr);
    a.set_phase_shift(shift);
    // the detour
    let (f2, sr2) = (c.rng.f(0.0, 20_000.0), c.rng.f(8000.0, 96_000.0));
    let mut b = SoftPhaseAccumulator::new(f2, sr2);
    c.cov("constructor replaced by setters");
    c.note(|| format!("new({f2:?}, {sr2:?}) then to {f:?} Hz, {sr:?}, shift {shift:#x}"));
    for k in 0..c.rng.usize(4) {
        c.cov("other value first");
        let (x, y, s) = (c.rng.f(0.0, 30_000.0), c.rng.f(8000.0, 96_000.0), c.rng.u32());
        match k {
            0 => b.set_freq_unchecked(x),
            1 => b.set_sr_unchecked(y),
            2 => b.set_phase_shift(s),
            _ => {
                let _ = b.set_freq(x);
            }
        }
    }
    let ord = order(c, 3);
    c.cov("setter order");
    for k in &ord {
        match k {
            0 => b.set_freq_unchecked(f),
            1 => b.set_sr_unchecked(sr),
            _ => b.set_phase_shift(shift),
        }
    }
    let n = if c.small() { 20 } else { 150 };
    for t in 0..n {
        if c.rng.chance(1, 8) {
            c.cov("repeated mid-stream");
            match c.rng.below(4) {
                0 => b.set_freq_unchecked(f),
                1 => b.set_sr_unchecked(sr),
                2 => b.set_phase_shift(shift),
                _ => {
                    let ok = b.set_freq(f).is_ok();
                    c.ok(ok, "refused", || format!("set_freq({f:?}) at {sr:?} refused mid-stream"))?;
                }
            }
        }
        let (x, y) = if c.rng.chance(1, 2) { (a.next_value(), b.next_value()) } else { (a.next_value_normalized().to_bits(), b.next_value_normalized().to_bits()) };
        let tr = c.trace();
        c.ok(x == y, "differs", || format!("accumulator at {f:?} Hz, {sr:?}, shift {shift:#x}: step {t} gives {y:#x}, configured directly {x:#x} (setter order {ord:?}); {tr}"))?;
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

fn c39_osc(c: &mut Ctx, functional: bool) -> R {
    c.cov(if functional { "functional oscillator" } else { "wavetable oscillator" });
    let sr = c.rng.pick(&[8000.0f32, 44_100.0, 48_000.0, 96_000.0]);
    let f = c.rng.f(0.5, sr as f64 * 0.49);
    let shift = c.rng.f(0.0, 1.0);
    let wv = c.rng.below(4);
    c.sigf(f);
    c.sigf(shift);
    c.sig(wv);
    let len = 1 + c.rng.usize(if c.small() { 8 } else { 200 });
    let data: Vec<f32> = (0..len).map(|_| c.rng.sample()).collect();
    let buf = Buf::new(c, &data);
    enum O {
        F(FunctionalOscillator<SoftPhaseAccumulator>),
        W(WavetableOscillator<SoftPhaseAccumulator>),
    }
    impl O {
        fn freq(&mut self, x: f32) {
            match self {
                O::F(o) => o.set_freq_unchecked(x),
                O::W(o) => o.set_freq_unchecked(x),
            }
        }
        fn sr(&mut self, x: f32) {
            match self {
                O::F(o) => o.set_sr_unchecked(x),
                O::W(o) => o.set_sr_unchecked(x),
            }
        }
        fn shift(&mut self, x: f32) {
            match self {
                O::F(o) => o.set_phase_shift_unchecked(x),
                O::W(o) => o.set_phase_shift_unchecked(x),
            }
        }
        fn wave(&mut self, k: u64) {
            if let O::F(o) = self {
                o.set_wave(wave(k))
            }
        }
        fn next(&mut self) -> f32 {
            match self {
                O::F(o) => o.next(),
                O::W(o) => o.next(),
            }
        }
    }
    let mk = |f: f32, sr: f32| if functional { O::F(FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr))) } else { O::W(WavetableOscillator::new(buf.view(), SoftPhaseAccumulator::new(f, sr))) };
    let mut a = mk(f, sr);
    a.shift(shift);
    a.wave(wv);
    let (f2, sr2) = (c.rng.f(0.0, 20_000.0), c.rng.f(8000.0, 96_000.0));
    let mut b = mk(f2, sr2);
    c.cov("constructor replaced by setters");
    for _ in 0..c.rng.usize(6) {
        c.cov("other value first");
        match c.rng.below(4) {
            0 => b.freq(c.rng.f(0.0, 30_000.0)),
            1 => b.sr(c.rng.f(8000.0, 96_000.0)),
            2 => b.shift(c.rng.f(0.0, 1.0)),
            _ => b.wave(c.rng.below(4)),
        }
    }
    let ord = order(c, 4);
    c.cov("setter order");
    for k in &ord {
        match k {
            0 => b.freq(f),
            1 => b.sr(sr),
            2 => b.shift(shift),
            _ => b.wave(wv),
        }
    }
    c.note(|| format!("oscillator (functional {functional}, waveform {wv}, table {len}) at {f:?} Hz, {sr:?}, shift {shift:?}, setter order {ord:?} after new({f2:?}, {sr2:?})"));
    let n = if c.small() { 20 } else { 150 };
    for t in 0..n {
        if c.rng.chance(1, 8) {
            c.cov("repeated mid-stream");
            match c.rng.below(4) {
                0 => b.freq(f),
                1 => b.sr(sr),
                2 => b.shift(shift),
                _ => b.wave(wv),
            }
        }
        if functional && c.rng.chance(1, 20) {
            // to another waveform and back between two samples: the phase runs on regardless
            let w2 = c.rng.below(4);
            c.cov("waveform there and back");
            b.wave(w2);
            b.wave(wv);
        }
        let (x, y) = (a.next(), b.next());
        let tr = c.trace();
        c.ok(bits(x) == bits(y), "differs", || format!("step {t} gives {y:?}, configured directly {x:?}; {tr}"))?;
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

fn c39_comb(c: &mut Ctx) -> R {
    c.cov("comb");
    let n = 1 + c.rng.usize(if c.small() { 5 } else { 40 });
    let init: Vec<f32> = (0..n).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let (ba, bb) = (Buf::new(c, &init), Buf::new(c, &init));
    let (mut a, mut b) = (Comb::new(ba.view_mut()), Comb::new(bb.view_mut()));
    let (mut fb, mut dm) = (0.5f32, 0.5f32);
    let mut set = false;
    let steps = if c.small() { 30 } else { 200 };
    for t in 0..steps {
        if t == 0 || c.rng.chance(1, 40) {
            // new settings: a gets them directly, b over a detour
            fb = c.rng.f(-0.95, 0.95);
            dm = c.rng.f(0.0, 1.0);
            c.sigf(fb);
            c.sigf(dm);
            set = true;
            a.set_feedback(fb);
            a.set_dampening(dm);
            for _ in 0..c.rng.usize(3) {
                c.cov("other value first");
                b.set_dampening(c.rng.f(0.0, 1.0));
                b.set_feedback(c.rng.f(-1.0, 1.0));
            }
            c.cov("setter order");
            if c.rng.chance(1, 2) {
                b.set_dampening(dm);
                b.set_feedback(fb);
            } else {
                b.set_feedback(fb);
                b.set_dampening(dm);
            }
            c.note(|| format!("{t}: feedback {fb:?}, dampening {dm:?}"));
        }
        if set && c.rng.chance(1, 6) {
            c.cov("repeated mid-stream");
            match c.rng.below(3) {
                0 => b.set_feedback(fb),
                1 => b.set_dampening(dm),
                _ => b.change_buffer(bb.view_mut()),
            }
        }
        let x = c.rng.f(-1.0, 1.0);
        let (y, z) = (a.tick(x), b.tick(x));
        let tr = c.trace();
        c.ok(bits(y) == bits(z), "differs", || format!("comb of {n} samples, step {t} gives {z:?}, configured directly {y:?}; {tr}"))?;
    }
    for j in 0..n {
        let (x, y) = (ba.get(j), bb.get(j));
        c.ok(bits(x) == bits(y), "differs", || format!("comb slot {j} holds {y:?}, configured directly {x:?}"))?;
    }
    // the values a new comb starts with are ordinary settings
    let (bc, bd) = (Buf::new(c, &init), Buf::new(c, &init));
    let (mut p, mut q) = (Comb::new(bc.view_mut()), Comb::new(bd.view_mut()));
    q.set_feedback(0.5);
    q.set_dampening(0.5);
    for t in 0..2 * n {
        let x = c.rng.f(-1.0, 1.0);
        let (y, z) = (p.tick(x), q.tick(x));
        c.ok(bits(y) == bits(z), "default", || format!("a new comb differs at step {t} from one set to its documented start values 0.5, 0.5: {y:?}, {z:?}"))?;
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

fn same_coeffs(a: &BiquadCoeffs<Butterworth>, b: &BiquadCoeffs<Butterworth>) -> bool {
    [a.b0, a.b1, a.b2, a.a1, a.a2].iter().zip([b.b0, b.b1, b.b2, b.a1, b.a2].iter()).all(|(x, y)| bits(*x) == bits(*y))
}

fn c39_biquad(c: &mut Ctx) -> R {
    c.cov("biquad");
    let op = c.rng.below(10);
    let sr = c.rng.pick(&[8000.0f32, 44_100.0, 48_000.0, 96_000.0]);
    let (fc, w) = (sr * c.rng.logf(0.0005, 0.45), c.rng.logf(0.1, 50.0));
    // cuts take negative gains, boosts positive ones
    let gain = c.rng.logf(0.05, 20.0) * match op {
        5 | 8 => -1.0,
        6 | 9 => c.rng.pick(&[1.0f32, -1.0]),
        _ => 1.0,
    };
    c.sig(op);
    c.sigf(fc);
    c.sigf(w);
    let mut fresh = BiquadCoeffs::<Butterworth>::new();
    design(&mut fresh, op, fc, w, gain, sr);
    // the same design over whatever was there before
    let mut a = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    design(&mut a.coeffs, op, fc, w, gain, sr);
    let mut b = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    for _ in 0..1 + c.rng.usize(3) {
        c.cov("other value first");
        if c.rng.chance(1, 5) {
            let r = c.rng.bits();
            let k = c.rng.below(6);
            let q = &mut b.coeffs;
            match k {
                0 => q.b0 = r,
                1 => q.b1 = r,
                2 => q.b2 = r,
                3 => q.a1 = r,
                4 => q.a2 = r,
                _ => {
                    q.b0 = f32::NAN;
                    q.b1 = f32::INFINITY;
                    q.b2 = f32::NAN;
                    q.a1 = f32::NAN;
                    q.a2 = -f32::INFINITY;
                }
            }
        } else {
            let (o2, f2, w2, g2) = (c.rng.below(10), sr * c.rng.logf(0.0005, 0.45), c.rng.logf(0.1, 50.0), c.rng.logf(0.05, 20.0));
            c.note(|| format!("first design {o2} at {f2:?}"));
            design(&mut b.coeffs, o2, f2, w2, g2, sr);
        }
    }
    c.cov("design over design");
    design(&mut b.coeffs, op, fc, w, gain, sr);
    let tr = c.trace();
    c.ok(same_coeffs(&fresh, &b.coeffs), "coefficients", || {
        let (x, y) = (&fresh, &b.coeffs);
        format!("design {op} (fc {fc:?}, q {w:?}, gain {gain:?}, sr {sr:?}) over an earlier one gives {:?}, from scratch {:?}; {tr}", [y.b0, y.b1, y.b2, y.a1, y.a2], [x.b0, x.b1, x.b2, x.a1, x.a2])
    })?;
    let n = if c.small() { 20 } else { 120 };
    for t in 0..n {
        if c.rng.chance(1, 8) {
            c.cov("repeated mid-stream");
            design(&mut b.coeffs, op, fc, w, gain, sr);
        }
        if c.rng.chance(1, 16) {
            // there and back between two samples
            let (o2, f2) = (c.rng.below(10), sr * c.rng.logf(0.001, 0.4));
            design(&mut b.coeffs, o2, f2, w, gain, sr);
            design(&mut b.coeffs, op, fc, w, gain, sr);
        }
        let x = c.rng.f(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x));
        let tr = c.trace();
        c.ok(bits(y) == bits(z), "differs", || format!("design {op} (fc {fc:?}, q {w:?}, gain {gain:?}, sr {sr:?}): step {t} gives {z:?}, configured directly {y:?}; {tr}"))?;
    }
    let t = format!("design {op} fc {fc:?} q {w:?} gain {gain:?} sr {sr:?}; {}", c.trace());
    c.sample(|| t);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Adsr {
    a: f32,
    d: f32,
    s: f32,
    r: f32,
    k: f32,
    sr: f32,
}
fn adsr(c: &mut Ctx) -> Adsr {
    let sr = c.rng.pick(&[100.0f32, 1000.0, 1000.0, 8000.0]);
    let odd = c.rng.chance(1, 6);
    let t = |c: &mut Ctx| match c.rng.below(6) {
        0 => 0.0,
        1 => c.rng.f(0.0, 1.0 / sr as f64),
        2 if odd => c.rng.pick(&[-0.0f32, -1.0, f32::NEG_INFINITY, f32::INFINITY, f32::NAN, 1e-45, -1e-45, 1e30]),
        3 if odd => c.rng.f(-30.0 / sr as f64, 0.0),
        _ => c.rng.f(0.0, 30.0 / sr as f64),
    };
    if odd {
        // settings outside their documented ranges are settings as well
        c.cov("odd envelope settings");
        let s = match c.rng.below(3) {
            0 => c.rng.pick(&[-1.0f32, 2.0, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::NAN]),
            1 => c.rng.f(-1.0, 2.0),
            _ => c.rng.f(0.0, 1.0),
        };
        let k = match c.rng.below(3) {
            0 => c.rng.pick(&[0.0f32, -0.0, -1.0, 0.05, 20.0, 1e-30, 1e30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
            1 => c.rng.logf(0.01, 100.0),
            _ => c.rng.logf(0.1, 10.0),
        };
        return Adsr { a: t(c), d: t(c), s, r: t(c), k, sr };
    }
    Adsr { a: t(c), d: t(c), s: if c.rng.chance(1, 6) { c.rng.pick(&[0.0f32, 1.0]) } else { c.rng.f(0.0, 1.0) }, r: t(c), k: c.rng.logf(0.1, 10.0), sr }
}
fn apply(e: &mut AudioRateADSR, p: &Adsr, which: usize) {
    match which {
        0 => e.set_attack(p.a),
        1 => e.set_decay(p.d),
        2 => e.set_sustain(p.s),
        3 => e.set_release(p.r),
        _ => e.set_slope(p.k),
    }
}
fn mk_env(p: &Adsr) -> AudioRateADSR {
    AudioRateADSR::new(p.a, p.d, p.s, p.r, p.k, p.sr)
}
/// the same gates and ticks on both, settings repeated on the second
fn env_pair(c: &mut Ctx, a: &mut AudioRateADSR, b: &mut AudioRateADSR, p: &Adsr, steps: usize) -> R {
    for t in 0..steps {
        match c.rng.below(24) {
            0 | 1 => {
                a.trigger_on();
                b.trigger_on();
                c.note(|| format!("{t}: on"));
            }
            2 | 3 => {
                a.trigger_off();
                b.trigger_off();
                c.note(|| format!("{t}: off"));
            }
            4 if c.rng.chance(1, 4) => {
                a.reset();
                b.reset();
                c.note(|| format!("{t}: reset"));
            }
            _ => {}
        }
        if c.rng.chance(1, 6) {
            c.cov("repeated mid-stream");
            let k = c.rng.usize(6);
            if k == 5 {
                b.set_sr(p.sr);
            } else {
                apply(b, p, k);
            }
        }
        let (sa, sb) = (a.get_state() as u32, b.get_state() as u32);
        let (x, y) = (a.tick(), b.tick());
        let tr = c.trace();
        c.ok(sa == sb, "state", || format!("{p:?}: stage {sb} at step {t}, configured directly {sa}; {tr}"))?;
        c.ok(bits(x) == bits(y), "differs", || format!("{p:?}: step {t} gives {y:?}, configured directly {x:?}; {tr}"))?;
    }
    Ok(())
}

fn c39_env(c: &mut Ctx) -> R {
    c.cov("envelope");
    let p = adsr(c);
    let q = adsr(c);
    for v in [p.a, p.d, p.s, p.r, p.k] {
        c.sigf(v);
    }
    let mut a = mk_env(&p);
    let mut b = mk_env(&q);
    c.cov("constructor replaced by setters");
    c.note(|| format!("from {q:?} to {p:?}"));
    for _ in 0..c.rng.usize(4) {
        c.cov("other value first");
        let o = adsr(c);
        let k = c.rng.usize(5);
        apply(&mut b, &o, k);
    }
    // times are computed with the sample rate in force, so that comes first; the rest in any order
    b.set_sr(p.sr);
    c.cov("setter order");
    for k in order(c, 5) {
        apply(&mut b, &p, k);
    }
    let n = if c.small() { 40 } else { 200 };
    env_pair(c, &mut a, &mut b, &p, n)?;
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

fn c39_env_reset(c: &mut Ctx) -> R {
    c.cov("envelope");
    let p = adsr(c);
    for v in [p.a, p.d, p.s, p.r, p.k] {
        c.sigf(v);
    }
    // a past of its own, with other settings, up to a random moment
    let q = adsr(c);
    let mut b = mk_env(&q);
    let past = c.rng.usize(if c.small() { 30 } else { 120 });
    let mut seen = [false; 5];
    for _ in 0..past {
        match c.rng.below(12) {
            0 | 1 => b.trigger_on(),
            2 => b.trigger_off(),
            3 => {
                let o = adsr(c);
                let k = c.rng.usize(5);
                apply(&mut b, &o, k);
            }
            _ => {}
        }
        b.tick();
        seen[b.get_state() as usize] = true;
    }
    let at = b.get_state();
    c.cov(match at {
        EnvelopeState::Idle => "reset while idle",
        EnvelopeState::Attack => "reset in attack",
        EnvelopeState::Decay => "reset in decay",
        EnvelopeState::Sustain => "reset in sustain",
        EnvelopeState::Release => "reset in release",
    });
    let late = c.rng.chance(1, 2);
    if late {
        b.reset();
    }
    b.set_sr(p.sr);
    for k in order(c, 5) {
        apply(&mut b, &p, k);
    }
    if !late {
        b.reset();
    }
    c.cov("after reset");
    c.note(|| format!("reset in {at:?} after {past} steps with {q:?}; now {p:?}"));
    let mut a = mk_env(&p);
    let n = if c.small() { 40 } else { 200 };
    env_pair(c, &mut a, &mut b, &p, n)?;
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}
