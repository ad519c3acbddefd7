//! C36: independence, determinism and thread hand-over of instances; shared views.
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::convert::Decibels;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::fixed_point::math::sin_i16;
use embedded_audio_tools::float::{bit_reduce_exp_unchecked, bit_reduce_unchecked, lagrange, AdditionalF32Ext};
use embedded_audio_tools::memory_access::{MemorySlice, Mutable, NonMutable};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::{crossfade_correlated_unchecked, stereo_pan_unchecked};
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Barrier, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        run: c36,
        cases: 2_500,
        systematic: 24,
        miri: 2,
        serial: true,
        rule: "A case runs several instances alone, then interleaved on one thread, then on a thread each, then handed between threads after every chunk, and requires bit-identical outputs; several threads also read one view and one delay line at once. Non-trivial: the recorded order of chunks differs from running the instances one after the other; distinct by that order (instance and thread per chunk).",
        required: &[
            "delay line", "comb", "all-pass", "biquad", "envelope", "functional oscillator", "wavetable oscillator", "phase accumulator", "shared view", "numeric functions",
            "interleaved chunk", "parallel chunk", "handed-over chunk", "moved to another thread", "concurrent view read", "concurrent tap read", "same recipe twice", "dropped elsewhere", "hammered call", "made very often",
        ],
    }]
}

struct SendBuf(Buf);
// the memory behind a Buf is plain; the harness hands it over together with its instance
unsafe impl Send for SendBuf {}

/// Carries library objects across threads whatever the library says about them, so that the other
/// monitors build in any case; what it says is asserted separately (feature `send`).
#[derive(Clone, Copy)]
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
unsafe impl Send for Machine {}

#[cfg(feature = "send")]
#[allow(dead_code)]
mod promised {
    use super::*;
    fn send<T: Send>() {}
    fn sync<T: Sync>() {}
    fn all() {
        send::<MemorySlice<NonMutable>>();
        send::<MemorySlice<Mutable>>();
        sync::<MemorySlice<NonMutable>>();
        sync::<MemorySlice<Mutable>>();
        send::<DelayLine>();
        send::<Comb>();
        send::<AllPass>();
        send::<Biquad<Butterworth>>();
        send::<AudioRateADSR>();
        send::<SoftPhaseAccumulator>();
        send::<FunctionalOscillator<SoftPhaseAccumulator>>();
        send::<WavetableOscillator<SoftPhaseAccumulator>>();
    }
}

enum Kind {
    Delay(DelayLine, SendBuf, SendBuf, bool),
    Comb(Comb, #[allow(dead_code)] SendBuf),
    AllPass(AllPass, #[allow(dead_code)] SendBuf),
    Biquad(Biquad<Butterworth>),
    Env(AudioRateADSR),
    Osc(FunctionalOscillator<SoftPhaseAccumulator>),
    Wave(WavetableOscillator<SoftPhaseAccumulator>),
    Acc(SoftPhaseAccumulator),
    View(MemorySlice<NonMutable>),
    Numeric,
}
const KINDS: u64 = 10;

struct Machine {
    kind: Kind,
    rng: Rng,
    out: Vec<u32>,
    bad: Option<String>,
}

#[derive(Clone, Copy)]
struct Recipe {
    kind: u64,
    seed: u64,
}

fn mk_buf(rng: &mut Rng, max: usize) -> SendBuf {
    let n = 1 + rng.usize(max);
    let v: Vec<f32> = (0..n).map(|_| rng.f(-1.0, 1.0)).collect();
    // the same workload whatever buffer memory this mode prefers
    let mut c = Ctx::new("C36", rng.u64(), if cfg!(miri) { Mode::Miri } else { Mode::Release }, false);
    c.begin(0);
    SendBuf(Buf::new(&mut c, &v))
}

/// anything from a sweep that takes minutes to an ultrasonic tone; often one of a few shared values
fn pitch(g: &mut Rng) -> f32 {
    match g.below(4) {
        0 => g.logf(0.005, 1.0),
        1 => g.pick(&[0.0f32, 0.01, 0.05, 0.1, 1.0, 100.0, 440.0, 1000.0]) * g.pick(&[1.0f32, 1.0, 1.0001]),
        _ => g.f(1.0, 20000.0),
    }
}

impl Machine {
    fn new(r: Recipe, shared: MemorySlice<NonMutable>) -> Machine {
        let mut g = Rng::new(r.seed);
        let kind = match r.kind {
            0 => {
                let (a, b) = (mk_buf(&mut g, 40), mk_buf(&mut g, 40));
                Kind::Delay(DelayLine::new(a.0.view_mut()), a, b, false)
            }
            1 => {
                let b = mk_buf(&mut g, 60);
                Kind::Comb(Comb::new(b.0.view_mut()), b)
            }
            2 => {
                let b = mk_buf(&mut g, 60);
                Kind::AllPass(AllPass::new(b.0.view_mut()), b)
            }
            3 => {
                let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
                q.coeffs.lowpass(g.f(100.0, 5000.0), 0.7, 48000.0);
                Kind::Biquad(q)
            }
            4 => Kind::Env(AudioRateADSR::new(g.f(0.0, 0.05), g.f(0.0, 0.05), g.f(0.0, 1.0), g.f(0.0, 0.05), g.f(0.3, 3.0), 1000.0)),
            5 => Kind::Osc(FunctionalOscillator::new(SoftPhaseAccumulator::new(pitch(&mut g), 48000.0))),
            6 => Kind::Wave(WavetableOscillator::new(shared, SoftPhaseAccumulator::new(pitch(&mut g), 48000.0))),
            7 => Kind::Acc(SoftPhaseAccumulator::new(pitch(&mut g), 48000.0)),
            8 => Kind::View(shared),
            _ => Kind::Numeric,
        };
        Machine { kind, rng: g, out: vec![], bad: None }
    }
    fn step(&mut self, table: &[f32]) {
        let g = &mut self.rng;
        let y = match &mut self.kind {
            Kind::Delay(d, a, b, sw) => match g.below(12) {
                0 => d.read(),
                1 => d.read_wrapped_at(g.range(-100, 100) as isize),
                2 => d.read_lerp_wrapped_at(g.f(0.0, 80.0)),
                3 => d.read_lagrange_wrapped_at(g.f(0.0, 80.0)),
                4 => {
                    d.advance();
                    0.0
                }
                5 if g.chance(1, 6) => {
                    *sw = !*sw;
                    d.change_buffer(if *sw { b.0.view_mut() } else { a.0.view_mut() });
                    d.len() as f32
                }
                _ => {
                    d.write_and_advance(g.f(-1.0, 1.0));
                    d.read()
                }
            },
            Kind::Comb(k, _) => match g.below(24) {
                0 => {
                    k.set_dampening(g.f(0.0, 1.0));
                    0.0
                }
                1 => {
                    k.set_feedback(g.f(0.0, 0.9));
                    0.0
                }
                _ => k.tick(g.f(-1.0, 1.0)),
            },
            Kind::AllPass(k, _) => k.tick(g.f(-1.0, 1.0)),
            Kind::Biquad(q) => match g.below(30) {
                0 => {
                    let (fc, w, gain, sr) = (g.f(50.0, 15000.0), g.f(0.3, 5.0), g.f(0.1, 20.0), g.pick(&[44100.0f32, 48000.0, 96000.0]));
                    match g.below(10) {
                        0 => q.coeffs.lowpass(fc, w, sr),
                        1 => q.coeffs.highpass(fc, w, sr),
                        2 => q.coeffs.allpass(fc, w, sr),
                        3 => q.coeffs.notch(fc, w, sr),
                        4 => q.coeffs.bell_boost_only(fc, w, gain, sr),
                        5 => q.coeffs.bell_cut_only(fc, w, gain, sr),
                        6 => q.coeffs.bell(fc, w, gain, sr),
                        7 => q.coeffs.low_shelf_boost_only(fc, w, gain, sr),
                        8 => q.coeffs.low_shelf_cut_only(fc, w, gain, sr),
                        _ => q.coeffs.low_shelf(fc, w, gain, sr),
                    }
                    for v in [q.coeffs.b0, q.coeffs.b1, q.coeffs.b2, q.coeffs.a1] {
                        self.out.push(bits(v));
                    }
                    q.coeffs.a2
                }
                _ => q.process(g.f(-1.0, 1.0)),
            },
            Kind::Env(e) => match g.below(20) {
                0 | 1 => {
                    e.trigger_on();
                    1.0
                }
                2 => {
                    e.trigger_off();
                    2.0
                }
                3 => {
                    match g.below(6) {
                        0 => e.set_attack(g.f(0.0, 0.1)),
                        1 => e.set_decay(g.f(0.0, 0.1)),
                        2 => e.set_release(g.f(0.0, 0.1)),
                        3 => e.set_sustain(g.f(0.0, 1.0)),
                        4 => e.set_slope(g.f(0.2, 4.0)),
                        _ => e.set_sr(g.f(500.0, 2000.0)),
                    }
                    3.0
                }
                _ => {
                    self.out.push(e.get_state() as u32);
                    e.tick()
                }
            },
            Kind::Osc(o) => {
                match g.below(20) {
                    0 => o.set_wave(match g.below(4) {
                        0 => Waveform::Sine,
                        1 => Waveform::Rectangle,
                        2 => Waveform::Sawtooth,
                        _ => Waveform::Triangle,
                    }),
                    1 => o.set_freq_unchecked(pitch(g)),
                    2 => o.set_phase_shift_unchecked(g.f(0.0, 1.0)),
                    3 => o.set_sr_unchecked(g.f(30000.0, 90000.0)),
                    _ => {}
                }
                o.next()
            }
            Kind::Wave(o) => {
                match g.below(20) {
                    1 => o.set_freq_unchecked(pitch(g)),
                    2 => o.set_phase_shift_unchecked(g.f(0.0, 1.0)),
                    3 => o.set_sr_unchecked(g.f(30000.0, 90000.0)),
                    _ => {}
                }
                o.next()
            }
            Kind::Acc(a) => match g.below(12) {
                0 => {
                    let ok = a.set_freq(g.f(-1000.0, 30000.0)).is_ok();
                    ok as u32 as f32
                }
                1 => {
                    a.set_phase_shift(g.u32());
                    0.0
                }
                2 => a.next_value_normalized(),
                _ => {
                    self.out.push(a.next_value());
                    0.0
                }
            },
            Kind::View(v) => {
                let i = g.usize(table.len());
                let r = v.get(i).unwrap_or(f32::NAN);
                if r.to_bits() != table[i].to_bits() {
                    self.bad = Some(format!("shared view read {r:?} at {i}, stored {:?}", table[i]));
                }
                match g.below(5) {
                    0 => v.get_wrapped(g.range(-500, 500) as isize),
                    1 => v.lerp_wrapped(g.f(0.0, 300.0)),
                    2 => v.lagrange_wrapped(g.f(0.0, 300.0), 4),
                    3 => v.get_slice_of_four_wrapped(g.range(-500, 500) as isize)[2],
                    _ => r,
                }
            }
            Kind::Numeric => match g.below(10) {
                0 => g.f(-100.0, 100.0).fixed_point_sin(),
                1 => g.f(-100.0, 100.0).fixed_point_cos(),
                2 => g.f(-100.0, 100.0).lookup_sin(),
                3 => g.f(0.0, 1.0).lookup_bl_rect(),
                4 => g.f(0.0, 1.0).fast_tan(),
                5 => AdditionalF32Ext::sinh(&g.f(-10.0, 10.0)),
                6 => g.f(0.0, 10.0).to_decibels_unchecked(),
                7 => g.f(-60.0, 60.0).to_volt_ratio(),
                8 => {
                    let s = [g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(-1.0, 1.0), g.f(-1.0, 1.0)];
                    lagrange(&s, g.f(0.0, 3.0))
                }
                _ => g.f(0.0, 10.0).sinc(),
            },
        };
        self.out.push(bits(y));
    }
    fn chunk(&mut self, n: u64, table: &[f32]) {
        if self.bad.is_some() {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            for _ in 0..n {
                self.step(table);
            }
        }));
        if r.is_err() {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            self.bad = Some(format!("panicked: {m}"));
        }
    }
}

/// bits of an output; which NaN an operation yields is not specified (and Miri varies it)
pub fn bits(v: f32) -> u32 {
    if v.is_nan() {
        0x7fc0_0000
    } else {
        v.to_bits()
    }
}

fn name(k: u64) -> &'static str {
    ["delay line", "comb", "all-pass", "biquad", "envelope", "functional oscillator", "wavetable oscillator", "phase accumulator", "shared view", "numeric functions"][k as usize]
}

fn same(c: &mut Ctx, how: &'static str, r: &Recipe, i: usize, want: &[u32], m: &Machine) -> R {
    if let Some(b) = &m.bad {
        return Err(viol("inside", format!("{how}: instance {i} ({}, recipe {}): {b}", name(r.kind), r.seed)));
    }
    c.obs.evals += want.len() as u64;
    if want.len() != m.out.len() {
        return Err(viol("length", format!("{how}: instance {i} ({}) made {} outputs, alone {}", name(r.kind), m.out.len(), want.len())));
    }
    for (k, (a, b)) in want.iter().zip(&m.out).enumerate() {
        if a != b {
            return Err(viol(
                "differs",
                format!("{how}: instance {i} ({}, recipe {}) output {k} is {:?}, alone it is {:?}; {}", name(r.kind), r.seed, f32::from_bits(*b), f32::from_bits(*a), c.trace()),
            ));
        }
    }
    Ok(())
}

/// One call of a function that has no state of its own to hide behind, as a hash of its results.
pub fn pure(op: u64, a: &[f32; 4], v: &MemorySlice<NonMutable>, q: &mut BiquadCoeffs<Butterworth>) -> u64 {
    let one = |x: f32| bits(x) as u64;
    match op {
        0..=9 => {
            let (fc, w, gain, sr) = (a[0] * 15000.0 + 20.0, a[1] * 5.0 + 0.2, a[2] * 10.0 + 0.1, 44100.0 + a[3] * 50000.0);
            match op {
                0 => q.lowpass(fc, w, sr),
                1 => q.highpass(fc, w, sr),
                2 => q.allpass(fc, w, sr),
                3 => q.notch(fc, w, sr),
                4 => q.bell_boost_only(fc, w, gain, sr),
                5 => q.bell_cut_only(fc, w, gain, sr),
                6 => q.bell(fc, w, gain, sr),
                7 => q.low_shelf_boost_only(fc, w, gain, sr),
                8 => q.low_shelf_cut_only(fc, w, gain, sr),
                _ => q.low_shelf(fc, w, gain, sr),
            }
            [q.b0, q.b1, q.b2, q.a1, q.a2].iter().fold(op, |h, x| mix(h ^ one(*x)))
        }
        10 => one((a[0] * 200.0 - 100.0).fixed_point_sin()),
        11 => one((a[0] * 200.0 - 100.0).fixed_point_cos()),
        12 => one((a[0] * 200.0 - 100.0).lookup_sin()),
        13 => one(a[0].lookup_bl_rect()),
        14 => one(a[0].fast_tan()),
        15 => one(AdditionalF32Ext::sinh(&(a[0] * 10.0 - 5.0))),
        16 => one(AdditionalF32Ext::cosh(&(a[0] * 10.0 - 5.0))),
        17 => one((a[0] * 8.0).to_decibels_unchecked()),
        18 => one((a[0] * 80.0 - 60.0).to_volt_ratio()),
        19 => one(lagrange(&a[..], a[1] * 3.0)),
        20 => one((a[0] * 20.0 - 10.0).sinc()),
        21 => one(bit_reduce_unchecked(a[0], 1 + (a[1] * 20.0) as u8)),
        22 => one(bit_reduce_exp_unchecked(a[0], 1 + (a[1] * 20.0) as u8)),
        23 => {
            let (l, r) = stereo_pan_unchecked(a[0] * 2.0 - 1.0, (a[1], a[2]));
            one(l) << 32 | one(r)
        }
        24 => one(crossfade_correlated_unchecked(a[0] * 2.0 - 1.0, (a[1], a[2]))),
        25 => sin_i16((a[0] * 65535.0 - 32768.0) as i16, (a[1] * 6.0) as u8) as u64,
        26 => {
            let n = v.len() as f32;
            one(v.lerp_wrapped(a[0] * 3.0 * n - n)) << 32 | one(v.lagrange_wrapped(a[1] * 3.0 * n - n, 2 + (a[2] * 12.0) as usize))
        }
        27 => {
            let n = v.len() as f32;
            one(v.lagrange_four_points_wrapped(a[0] * 3.0 * n - n)) << 32 | one(v.lerp(a[1] * n).unwrap_or(-9.0))
        }
        28 => {
            let mut e = AudioRateADSR::new(a[0] * 0.01, a[1] * 0.01, a[2], a[3] * 0.01, 0.2 + a[1] * 4.0, 1000.0);
            e.trigger_on();
            let mut h = 0;
            for k in 0..12 {
                if k == 7 {
                    e.trigger_off();
                }
                h = mix(h ^ one(e.tick()));
            }
            h
        }
        29 => {
            let mut p = SoftPhaseAccumulator::new(a[0] * 20000.0, 40000.0 + a[1] * 20000.0);
            let r = p.set_freq(a[2] * 60000.0 - 15000.0).is_ok();
            p.set_phase_shift((a[3] * 4e9) as u32);
            let x = p.next_value() as u64;
            mix(x << 1 | r as u64) ^ one(p.next_value_normalized())
        }
        30 => {
            let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(a[0] * 20000.0, 48000.0));
            o.set_phase_shift_unchecked(a[1]);
            o.set_wave(match (a[2] * 4.0) as u32 {
                0 => Waveform::Sine,
                1 => Waveform::Rectangle,
                2 => Waveform::Sawtooth,
                _ => Waveform::Triangle,
            });
            let x = one(o.next());
            x << 32 | one(o.next())
        }
        _ => {
            let mut o = WavetableOscillator::new(*v, SoftPhaseAccumulator::new(a[0] * 20000.0, 48000.0));
            o.set_phase_shift_unchecked(a[1]);
            let x = one(o.next());
            x << 32 | one(o.next())
        }
    }
}
const OPS: u64 = 32;
pub const PURE_OPS: u64 = OPS;

/// Threads call the same few functions with few different arguments as fast as they can: state that
/// is shared behind the scenes (a cache, a scratch buffer) gets every chance to be seen half-made.
fn hammer(c: &mut Ctx, shared: MemorySlice<NonMutable>) -> R {
    let small = c.small();
    let kinds = 1 + c.rng.below(3);
    let first = c.case % OPS;
    let ops: Vec<u64> = (0..kinds).map(|k| if k == 0 { first } else { c.rng.below(OPS) }).collect();
    let args: Vec<[f32; 4]> = (0..2 + c.rng.usize(4)).map(|_| [c.rng.f(0.0, 1.0), c.rng.f(0.0, 1.0), c.rng.f(0.0, 1.0), c.rng.f(0.0, 1.0)]).collect();
    let mut calls: Vec<(u64, [f32; 4], u64)> = vec![];
    let mut q = BiquadCoeffs::<Butterworth>::new();
    for op in &ops {
        for a in &args {
            let h = pure(*op, a, &shared, &mut q);
            calls.push((*op, *a, h));
        }
    }
    let threads = if small { 2 } else { 2 + c.rng.usize(7) };
    let rounds = if small { 10 } else { 6_000u64 };
    let bar = Barrier::new(threads);
    let seed = c.rng.u64();
    let case = c.case;
    let errs: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                let (bar, calls, shared) = (&bar, &calls, Any(&shared));
                s.spawn(move || {
                    let shared = *shared.get();
                    CUR.with(|k| k.set(case));
                    let mut g = Rng::new(seed ^ mix(w as u64));
                    let mut q = BiquadCoeffs::<Butterworth>::new();
                    bar.wait();
                    for k in 0..rounds {
                        let (op, a, want) = &calls[g.usize(calls.len())];
                        let h = pure(*op, a, shared, &mut q);
                        if h != *want {
                            return Some(format!("call {k} of thread {w} of {threads}: function {op} of {a:?} gives {h:#x}, alone {want:#x}"));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    c.obs.evals += rounds * threads as u64;
    c.covn("hammered call", rounds * threads as u64);
    match errs.into_iter().flatten().next() {
        Some(e) => Err(viol("hammered", e)),
        None => Ok(()),
    }
}

/// What one new instance of everything does first, whatever was made before it.
fn first_steps(v: &mut MemorySlice<Mutable>, table: MemorySlice<NonMutable>, x: &[f32; 6]) -> [u32; 24] {
    let mut o = [0u32; 24];
    let mut n = 0;
    let mut put = |y: f32| {
        o[n] = bits(y);
        n += 1;
    };
    let clear = |v: &mut MemorySlice<Mutable>| {
        let _ = (v.assign(0, x[4]), v.assign(1, x[5]));
    };
    clear(v);
    let mut d = DelayLine::new(*v);
    put(d.read());
    d.write_and_advance(x[0]);
    put(d.read());
    clear(v);
    let mut k = Comb::new(*v);
    for x in &x[..3] {
        put(k.tick(*x));
    }
    clear(v);
    let mut k = AllPass::new(*v);
    for x in &x[..3] {
        put(k.tick(*x));
    }
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    put(q.process(x[0]));
    q.coeffs.lowpass(1000.0, 0.7, 48000.0);
    put(q.process(x[1]));
    put(q.process(x[2]));
    let mut e = AudioRateADSR::new(0.01, 0.01, 0.5, 0.01, 1.0, 1000.0);
    put(e.tick());
    e.trigger_on();
    put(e.tick());
    put(e.tick());
    let mut a = SoftPhaseAccumulator::new(1000.0 * x[3], 48000.0);
    put(f32::from_bits(a.next_value()));
    put(a.next_value_normalized());
    let mut f = FunctionalOscillator::new(SoftPhaseAccumulator::new(1000.0 * x[3], 48000.0));
    put(f.next());
    f.set_wave(Waveform::Triangle);
    put(f.next());
    let mut w = WavetableOscillator::new(table, SoftPhaseAccumulator::new(1000.0 * x[3], 48000.0));
    put(w.next());
    put(w.next());
    o
}

/// So many instances that anything kept per instance somewhere in common runs full or comes round.
fn births(c: &mut Ctx, table: MemorySlice<NonMutable>) -> R {
    let total = if c.case < 300 { 1_100_000 } else { 140_000 };
    let b = Buf::new(c, &[0.0, 0.0]);
    let mut v = b.view_mut();
    let x: [f32; 6] = std::array::from_fn(|_| c.rng.f(0.1, 1.0));
    let first = first_steps(&mut v, table, &x);
    for k in 1..total {
        let y = first_steps(&mut v, table, &x);
        c.ok(y == first, "later", || {
            let j = (0..24).find(|j| y[*j] != first[*j]).unwrap();
            format!("output {j} of a set of new instances is {:?} for the first one and {:?} after {k} others", f32::from_bits(first[j]), f32::from_bits(y[j]))
        })?;
    }
    c.cov("made very often");
    Ok(())
}

fn c36(c: &mut Ctx) -> R {
    let small = c.small();
    let tn = 1 + c.rng.usize(200);
    let init: Vec<f32> = (0..tn).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let tbuf = Buf::new(c, &init);
    let shared = tbuf.view();

    if c.case % 250 == 7 && !small {
        births(c, shared)?;
    }
    let m = if small { 4 } else { 4 + c.rng.usize(9) };
    let chunks = if small { 4 } else { 4 + c.rng.below(20) };
    let per = if small { 8 } else { 8 + c.rng.below(40) };
    let focus = c.case % (KINDS + 4);
    let mut recipes: Vec<Recipe> = (0..m)
        .map(|i| {
            let kind = if focus < KINDS && i < (m + 1) / 2 { focus } else { c.rng.below(KINDS) };
            Recipe { kind, seed: c.rng.u64() }
        })
        .collect();
    if c.rng.chance(1, 2) {
        recipes[1] = recipes[0];
        c.cov("same recipe twice");
    }
    for r in &recipes {
        c.cov(name(r.kind));
        c.sig(r.kind);
    }
    c.note(|| format!("kinds {:?}, {chunks} chunks of {per}", recipes.iter().map(|r| r.kind).collect::<Vec<_>>()));

    // alone
    let mut want: Vec<Vec<u32>> = vec![];
    for r in &recipes {
        let mut a = Machine::new(*r, shared);
        for _ in 0..chunks {
            a.chunk(per, &init);
        }
        if let Some(b) = a.bad {
            return Err(viol("inside", format!("alone ({}, recipe {}): {b}", name(r.kind), r.seed)));
        }
        want.push(a.out);
    }
    for (i, r) in recipes.iter().enumerate() {
        let mut a = Machine::new(*r, shared);
        for _ in 0..chunks {
            a.chunk(per, &init);
        }
        same(c, "run again", r, i, &want[i], &a)?;
    }

    // interleaved on one thread
    let mut ms: Vec<Machine> = recipes.iter().map(|r| Machine::new(*r, shared)).collect();
    let mut left: Vec<u64> = vec![chunks * per; m];
    let mut order = 0u64;
    while left.iter().any(|l| *l > 0) {
        let i = c.rng.usize(m);
        if left[i] == 0 {
            continue;
        }
        let n = if c.rng.chance(1, 2) { 1 } else { 1 + c.rng.below(per) }.min(left[i]);
        ms[i].chunk(n, &init);
        left[i] -= n;
        order = mix(order ^ (i as u64) << 32 ^ n);
        c.cov("interleaved chunk");
    }
    for (i, r) in recipes.iter().enumerate() {
        same(c, "interleaved on one thread", r, i, &want[i], &ms[i])?;
    }
    drop(ms);
    c.nontrivial_h(order);

    let case = c.case;
    // a thread each
    let bar = Barrier::new(m);
    let done: Vec<Machine> = std::thread::scope(|s| {
        let hs: Vec<_> = recipes
            .iter()
            .map(|r| {
                let (bar, init) = (&bar, &init);
                let a = Machine::new(*r, shared);
                s.spawn(move || {
                    CUR.with(|k| k.set(case));
                    let mut a = a;
                    bar.wait();
                    for _ in 0..chunks {
                        a.chunk(per, init);
                    }
                    a
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    c.covn("parallel chunk", chunks * m as u64);
    for (i, r) in recipes.iter().enumerate() {
        same(c, "on a thread each", r, i, &want[i], &done[i])?;
    }
    drop(done);
    c.cov("dropped elsewhere");

    // handed over after every chunk
    let workers = if small { 2 } else { 2 + c.rng.usize(5) };
    let pool: Mutex<VecDeque<(usize, u64, Machine)>> = Mutex::new(recipes.iter().enumerate().map(|(i, r)| (i, chunks, Machine::new(*r, shared))).collect());
    let fin: Mutex<Vec<(usize, Machine)>> = Mutex::new(vec![]);
    let log: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let seed = c.rng.u64();
    std::thread::scope(|s| {
        for w in 0..workers {
            let (pool, fin, log, init) = (&pool, &fin, &log, &init);
            s.spawn(move || {
                CUR.with(|k| k.set(case));
                let mut g = Rng::new(seed ^ w as u64);
                loop {
                    let got = {
                        let mut p = pool.lock().unwrap();
                        let n = p.len();
                        let k = g.usize(n.max(1));
                        p.swap_remove_back(k)
                    };
                    match got {
                        None => {
                            if fin.lock().unwrap().len() == m {
                                break;
                            }
                            std::thread::yield_now();
                        }
                        Some((i, left, mut a)) => {
                            log.lock().unwrap().push((i, w));
                            a.chunk(per, init);
                            if g.chance(1, 4) {
                                std::thread::yield_now();
                            }
                            if left == 1 {
                                fin.lock().unwrap().push((i, a));
                            } else {
                                pool.lock().unwrap().push_back((i, left - 1, a));
                            }
                        }
                    }
                }
            });
        }
    });
    let log = log.into_inner().unwrap();
    let mut fin = fin.into_inner().unwrap();
    fin.sort_by_key(|(i, _)| *i);
    c.covn("handed-over chunk", log.len() as u64);
    let mut lastw = vec![usize::MAX; m];
    let mut h = 0u64;
    for (i, w) in &log {
        if lastw[*i] != usize::MAX && lastw[*i] != *w {
            c.cov("moved to another thread");
        }
        lastw[*i] = *w;
        h = mix(h ^ (*i as u64) << 8 ^ *w as u64);
    }
    if log.windows(2).any(|p| p[0].0 > p[1].0) {
        c.nontrivial_h(h);
    }
    for (i, r) in recipes.iter().enumerate() {
        same(c, "handed between threads", r, i, &want[i], &fin[i].1)?;
    }

    // one view, one delay line, read by many
    let dbuf = Buf::new(c, &init);
    let line = DelayLine::new(dbuf.view_mut());
    let mview = dbuf.view_mut();
    let readers = if small { 2 } else { 3 };
    let bar = Barrier::new(readers);
    let reads = if small { 20 } else { 400u64 };
    let seed = c.rng.u64();
    let errs: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..readers)
            .map(|w| {
                let (bar, init, views) = (&bar, &init, Any((&shared, &line, &mview)));
                s.spawn(move || {
                    let (shared, line, mview) = *views.get();
                    CUR.with(|k| k.set(case));
                    let mut g = Rng::new(seed ^ w as u64);
                    let n = init.len();
                    bar.wait();
                    for _ in 0..reads {
                        let i = g.usize(n);
                        let (a, b) = (shared.get(i).unwrap_or(f32::NAN), mview.get_wrapped(i as isize));
                        if a.to_bits() != init[i].to_bits() || b.to_bits() != init[i].to_bits() {
                            return Some(format!("concurrent read of element {i} gave {a:?} and {b:?}, stored {:?}", init[i]));
                        }
                        let l = shared.lerp_wrapped(i as f32);
                        if (l - init[i]).abs() > 1e-5 {
                            return Some(format!("concurrent interpolated read at {i} gave {l:?}, stored {:?}", init[i]));
                        }
                        // a fresh line over an untouched buffer reads position 0 at offset 0
                        let t = line.read_wrapped_at(i as isize);
                        if !init.iter().any(|v| v.to_bits() == t.to_bits()) {
                            return Some(format!("concurrent tap at {i} gave {t:?}, which is not in the line"));
                        }
                        if line.read().to_bits() != line.read_wrapped_at(0).to_bits() && line.read().to_bits() != init[0].to_bits() {
                            return Some("concurrent tap at the head is not in the line".into());
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    c.obs.evals += reads * readers as u64 * 4;
    c.covn("concurrent view read", reads * readers as u64);
    c.covn("concurrent tap read", reads * readers as u64);
    if let Some(e) = errs.into_iter().flatten().next() {
        return Err(viol("view", e));
    }
    hammer(c, shared)?;
    tbuf.check(c, &init, "shared table")?;
    dbuf.check(c, &init, "shared line")?;
    c.sample(|| format!("{m} instances, {workers} workers, order {:?}", &log[..log.len().min(16)]));
    Ok(())
}
