//! The workload of C44: seeded histories over the whole crate whose every result is logged. It needs
//! nothing but `core`, so that it can be built for any target and with any profile; the logs have to be
//! the same everywhere.
#![no_std]
use embedded_audio_tools::convert::{Decibels, FromF32Components, FromRawBytes, ToF32Components, ToRawBytes};
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::fixed_point::math::sin_i16;
use embedded_audio_tools::float::{
    bit_reduce, bit_reduce_exp, bit_reduce_exp_unchecked, bit_reduce_unchecked, lagrange, lerp, lerp_unchecked, AdditionalF32Ext, DSPUtility,
};
use embedded_audio_tools::memory_access::{from_slice, from_slice_mut, null_mut, MemorySlice, Mutable, NonMutable};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::{crossfade_correlated_unchecked, mono_pan, mono_pan_unchecked, stereo_pan, stereo_pan_unchecked};
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};

pub const KINDS: u32 = 14;
pub const NAMES: [&str; KINDS as usize] = [
    "views", "delay line", "comb", "all-pass", "biquad", "envelope", "accumulator", "functional oscillator", "wavetable oscillator", "approximations", "levels and times", "bits", "interpolation", "voice",
];
const N: usize = 96;
/// Results must not depend on where a buffer lies: every build and run places them elsewhere.
pub static PLACE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
const ROOM: usize = 32;
fn place(m: &mut [f32], n: usize) -> &mut [f32] {
    let at = PLACE.load(core::sync::atomic::Ordering::Relaxed) % ROOM;
    &mut m[at..at + n]
}

// ------------------------------------------------------------------------------------------ randomness
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, case: u32) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ ((case as u64) << 17));
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u32) -> u32 {
        (((self.u64() >> 32) * n as u64) >> 32) as u32
    }
    fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    fn range(&mut self, lo: i32, hi: i32) -> i32 {
        lo + self.below((hi - lo + 1) as u32) as i32
    }
    fn f(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * ((self.u32() >> 8) as f32 / 16777216.0)
    }
    /// a positive number of about 2^lo to 2^hi
    fn scale(&mut self, lo: i32, hi: i32) -> f32 {
        let e = self.range(lo, hi - 1);
        f32::from_bits((((e + 127) as u32) << 23) | (self.u32() >> 9))
    }
    /// a number of any class
    fn wild(&mut self) -> f32 {
        match self.below(8) {
            0 => [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 0.75, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 2147483648.0, -2147483648.0, 4294967296.0, 16777216.0, 65536.0]
                [self.below(20) as usize],
            1 => f32::from_bits(self.u32()),
            2 => self.range(-40, 40) as f32 / 8.0 * core::f32::consts::PI,
            3 => self.scale(-30, 40),
            4 => -self.scale(-30, 40),
            5 => self.range(-300, 300) as f32,
            _ => self.f(-1.5, 1.5),
        }
    }
    fn sample(&mut self) -> f32 {
        match self.below(12) {
            0 => 0.0,
            1 => self.wild(),
            2 => self.scale(-126, -100),
            3 => f32::from_bits(self.u32() >> 9),
            _ => self.f(-1.0, 1.0),
        }
    }
    fn index(&mut self, n: usize) -> i32 {
        match self.below(6) {
            0 => i32::MAX - self.below(5) as i32,
            1 => i32::MIN + self.below(5) as i32,
            2 => self.u32() as i32,
            3 => n as i32 * self.range(-3, 3) + self.range(-2, 2),
            _ => self.range(-3, n as i32 + 3),
        }
    }
    fn size(&mut self, n: usize) -> usize {
        match self.below(6) {
            0 => self.index(n) as u32 as usize,
            1 => u32::MAX as usize - self.below(5) as usize,
            _ => self.below(n as u32 + 3) as usize,
        }
    }
}

// ------------------------------------------------------------------------------------------------ log
/// What a case did: one word per result, and optionally what it was.
pub trait Sink {
    fn word(&mut self, what: &'static str, v: u32);
}
fn put(s: &mut dyn Sink, what: &'static str, v: f32) {
    // which NaN, and which zero a minimum or maximum yields, is not specified
    s.word(what, if v.is_nan() { 0x7fc0_0000 } else if v == 0.0 { 0 } else { v.to_bits() })
}
fn opt<E>(s: &mut dyn Sink, what: &'static str, v: Result<f32, E>) {
    match v {
        Ok(v) => put(s, what, v),
        Err(_) => s.word(what, 0xffff_fffe),
    }
}

// ---------------------------------------------------------------------------------------------- cases
pub fn run(seed: u64, case: u32, s: &mut dyn Sink) {
    let mut g = Rng::new(seed, case);
    match case % KINDS {
        0 => views(&mut g, s),
        1 => delay(&mut g, s),
        2 => comb(&mut g, s),
        3 => all_pass(&mut g, s),
        4 => biquad(&mut g, s),
        5 => envelope(&mut g, s),
        6 => accumulator(&mut g, s),
        7 => functional(&mut g, s),
        8 => wavetable(&mut g, s),
        9 => approximations(&mut g, s),
        10 => levels(&mut g, s),
        11 => bits(&mut g, s),
        12 => interpolation(&mut g, s),
        _ => voice(&mut g, s),
    }
}

fn fill(g: &mut Rng, m: &mut [f32]) {
    let calm = g.below(3) > 0;
    for x in m.iter_mut() {
        *x = if calm { g.f(-1.0, 1.0) } else { g.sample() };
    }
}
fn length(g: &mut Rng) -> usize {
    match g.below(4) {
        0 => 1 + g.below(5) as usize,
        1 => [8, 16, 32, 64, N][g.below(5) as usize],
        _ => 1 + g.below(N as u32) as usize,
    }
}
fn dump(s: &mut dyn Sink, m: &[f32]) {
    for v in m {
        put(s, "buffer", *v);
    }
}

fn views(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; N + ROOM];
    let m = place(&mut m, N);
    fill(g, m);
    let n = length(g);
    {
        let mut v = from_slice_mut(&mut m[..n]);
        for _ in 0..24 {
            let (i, w, l) = (g.index(n), g.size(n), g.size(n));
            let (x, p) = (g.sample(), position(g, n));
            opt(s, "get", v.get(w));
            s.word("assign", v.assign(w, x).is_ok() as u32);
            put(s, "get_wrapped", v.get_wrapped(i as isize));
            for y in v.get_slice_of_four_wrapped(i as isize) {
                put(s, "get_slice_of_four_wrapped", y);
            }
            opt(s, "lerp", v.lerp(p));
            put(s, "lerp_wrapped", v.lerp_wrapped(p));
            let win = if g.below(6) == 0 { w } else { 2 + g.below(9) as usize };
            put(s, "lagrange_wrapped", v.lagrange_wrapped(p, win));
            put(s, "lagrange_four_points_wrapped", v.lagrange_four_points_wrapped(p));
            match v.get_sub_slice(w, l) {
                Ok(u) => {
                    s.word("sub-view", u.len() as u32);
                    if u.len() > 0 {
                        put(s, "sub-view read", u.get_wrapped(i as isize));
                    }
                }
                Err(_) => s.word("sub-view", 0xffff_fffe),
            }
        }
    }
    dump(s, m);
}

fn position(g: &mut Rng, n: usize) -> f32 {
    match g.below(6) {
        0 => g.scale(10, 60),
        1 => -g.scale(10, 60),
        2 => g.range(-2, 2) as f32 * n as f32 + [0.0, 0.5, -0.25, 0.99999][g.below(4) as usize],
        _ => g.f(-1.0, n as f32),
    }
}

/// three buffers in one memory
fn parts(m: &mut [f32], n: usize) -> [MemorySlice<Mutable>; 3] {
    let v = from_slice_mut(m);
    let a = v.get_sub_slice(0, n).ok();
    let b = v.get_sub_slice(N, (n + 7) % N + 1).ok();
    [a.unwrap_or(null_mut()), b.unwrap_or(null_mut()), null_mut()]
}

fn delay(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; 2 * N + ROOM];
    let m = place(&mut m, 2 * N);
    fill(g, m);
    let n = length(g);
    let p = parts(m, n);
    let mut d = DelayLine::new(p[0]);
    for _ in 0..g.below(400) + 20 {
        match g.below(12) {
            0 => d.advance(),
            1 => put(s, "tap", d.read_wrapped_at(g.index(n) as isize)),
            2 => put(s, "lerp tap", d.read_lerp_wrapped_at(position(g, n))),
            3 => put(s, "lagrange tap", d.read_lagrange_wrapped_at(position(g, n))),
            4 if g.below(8) == 0 => {
                d.change_buffer(p[g.below(3) as usize]);
                s.word("length", d.len() as u32);
            }
            _ => {
                d.write_and_advance(g.sample());
                put(s, "read", d.read());
            }
        }
    }
    dump(s, m);
}

fn comb(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; 2 * N + ROOM];
    let m = place(&mut m, 2 * N);
    fill(g, m);
    let n = length(g);
    let p = parts(m, n);
    let mut k = Comb::new(p[0]);
    for _ in 0..g.below(400) + 20 {
        match g.below(40) {
            0 => k.set_dampening(g.f(0.0, 1.0)),
            1 => k.set_feedback(g.f(-1.0, 1.0)),
            2 => k.change_buffer(p[g.below(3) as usize]),
            3 => k.set_feedback(g.f(-1.2, 1.2)),
            _ => put(s, "comb", k.tick(g.sample())),
        }
    }
    dump(s, m);
}

fn all_pass(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; 2 * N + ROOM];
    let m = place(&mut m, 2 * N);
    fill(g, m);
    let n = length(g);
    let p = parts(m, n);
    let mut k = AllPass::new(p[0]);
    for _ in 0..g.below(400) + 20 {
        match g.below(40) {
            0 => k.change_buffer(p[g.below(3) as usize]),
            _ => put(s, "all-pass", k.tick(g.sample())),
        }
    }
    dump(s, m);
}

fn design(g: &mut Rng, c: &mut BiquadCoeffs<Butterworth>) {
    let sr = [8000.0, 44_100.0, 48_000.0, 96_000.0][g.below(4) as usize];
    let (fc, q, gain) = (g.f(0.0001, 0.499) * sr, g.scale(-4, 7), g.scale(-6, 6) * [1.0, -1.0][g.below(2) as usize]);
    match g.below(10) {
        0 => c.lowpass(fc, q, sr),
        1 => c.highpass(fc, q, sr),
        2 => c.allpass(fc, q, sr),
        3 => c.notch(fc, q, sr),
        4 => c.bell_boost_only(fc, q, gain, sr),
        5 => c.bell_cut_only(fc, q, gain, sr),
        6 => c.bell(fc, q, gain, sr),
        7 => c.low_shelf_boost_only(fc, q, gain, sr),
        8 => c.low_shelf_cut_only(fc, q, gain, sr),
        _ => c.low_shelf(fc, q, gain, sr),
    }
}

fn biquad(g: &mut Rng, s: &mut dyn Sink) {
    let mut f: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
    for i in 0..g.below(300) + 20 {
        if i == 0 || g.below(40) == 0 {
            design(g, &mut f.coeffs);
            let c = &f.coeffs;
            for v in [c.b0, c.b1, c.b2, c.a1, c.a2] {
                put(s, "coefficient", v);
            }
        }
        put(s, "biquad", f.process(if g.below(3) == 0 { 0.0 } else { g.f(-1.0, 1.0) }));
    }
}

fn envelope(g: &mut Rng, s: &mut dyn Sink) {
    let sr = [1000.0, 8000.0, 44_100.0, 48_000.0, 192_000.0][g.below(5) as usize];
    let t = |g: &mut Rng| if g.below(6) == 0 { [0.0, 1.0, 1e-9, 3600.0][g.below(4) as usize] } else { g.f(0.0, 60.0) / sr };
    let mut e = AudioRateADSR::new(t(g), t(g), g.f(0.0, 1.0), t(g), g.scale(-4, 5), sr);
    for _ in 0..g.below(500) + 30 {
        match g.below(60) {
            0 => e.set_attack(t(g)),
            1 => e.set_decay(t(g)),
            2 => e.set_sustain(if g.below(4) == 0 { g.below(2) as f32 } else { g.f(0.0, 1.0) }),
            3 => e.set_release(t(g)),
            4 => e.set_slope(g.scale(-5, 6)),
            5 => e.set_sr(sr),
            6 | 7 => e.trigger_on(),
            8 => e.trigger_off(),
            9 => e.reset(),
            _ => {
                put(s, "level", e.tick());
                s.word("stage", e.get_state() as u32);
            }
        }
    }
}

fn tone(g: &mut Rng) -> (f32, f32) {
    let sr = if g.below(4) == 0 { g.scale(0, 20) } else { [8000.0, 44_100.0, 48_000.0][g.below(3) as usize] };
    let part = match g.below(8) {
        0 => g.below(3) as f32 * 0.25,
        1 => g.scale(-30, -1),
        _ => g.f(0.0, 0.5),
    };
    (part * sr, sr)
}

fn accumulator(g: &mut Rng, s: &mut dyn Sink) {
    let (f, sr) = tone(g);
    let mut a = SoftPhaseAccumulator::new(f, sr);
    for _ in 0..g.below(300) + 20 {
        match g.below(30) {
            0 => a.set_freq_unchecked(tone(g).0),
            1 => a.set_sr_unchecked(tone(g).1),
            2 => a.set_phase_shift(g.u32()),
            3 => s.word(
                "verdict",
                match a.set_freq(g.wild()) {
                    Ok(()) => 0,
                    Err(e) => 1 + e as u32,
                },
            ),
            x if x % 2 == 0 => s.word("phase", a.next_value()),
            _ => put(s, "normalized phase", a.next_value_normalized()),
        }
    }
}

fn waveform(k: u32) -> Waveform {
    match k {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    }
}

fn functional(g: &mut Rng, s: &mut dyn Sink) {
    let (f, sr) = tone(g);
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
    for _ in 0..g.below(300) + 20 {
        match g.below(30) {
            0 => o.set_freq_unchecked(tone(g).0),
            1 => o.set_sr_unchecked(tone(g).1),
            2 => o.set_phase_shift_unchecked(if g.below(3) == 0 { g.below(5) as f32 * 0.25 } else { g.f(0.0, 1.0) }),
            3 | 4 => o.set_wave(waveform(g.below(4))),
            _ => put(s, "oscillator", o.next()),
        }
    }
}

fn wavetable(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; N + ROOM];
    let m = place(&mut m, N);
    fill(g, m);
    let n = length(g);
    let (f, sr) = tone(g);
    let mut o = WavetableOscillator::new(from_slice(&m[..n]), SoftPhaseAccumulator::new(f, sr));
    for _ in 0..g.below(300) + 20 {
        match g.below(30) {
            0 => o.set_freq_unchecked(tone(g).0),
            1 => o.set_sr_unchecked(tone(g).1),
            2 => o.set_phase_shift_unchecked(if g.below(3) == 0 { g.below(5) as f32 * 0.25 } else { g.f(0.0, 1.0) }),
            _ => put(s, "table oscillator", o.next()),
        }
    }
}

fn approximations(g: &mut Rng, s: &mut dyn Sink) {
    for i in 0..40 {
        let x = g.wild();
        put(s, "lookup_sin", x.lookup_sin());
        put(s, "lookup_bl_rect", x.lookup_bl_rect());
        put(s, "fixed_point_sin", x.fixed_point_sin());
        put(s, "fixed_point_cos", x.fixed_point_cos());
        put(s, "fast_tan", g.f(-1.5, 1.5).fast_tan());
        put(s, "tanh", AdditionalF32Ext::tanh(&x));
        put(s, "sinc", x.sinc());
        let h = if x.abs() <= 85.0 { x } else { g.f(-85.0, 85.0) };
        put(s, "sinh", AdditionalF32Ext::sinh(&h));
        put(s, "cosh", AdditionalF32Ext::cosh(&h));
        s.word("sin_i16", sin_i16(g.u32() as i16, g.u32() as u8) as u16 as u32);
        if i == 0 {
            put(s, "si", x.si());
        }
    }
}

fn levels(g: &mut Rng, s: &mut dyn Sink) {
    for _ in 0..40 {
        let (x, y, z) = (g.wild(), g.wild(), g.wild());
        opt(s, "to_decibels", x.to_decibels());
        opt(s, "to_decibels_checked", x.to_decibels_checked());
        put(s, "to_decibels_unchecked", x.to_decibels_unchecked());
        let d = if x.abs() <= 700.0 { x } else { g.f(-700.0, 700.0) };
        put(s, "to_volt_ratio", d.to_volt_ratio());
        put(s, "samples_to_seconds", x.samples_to_seconds(y));
        put(s, "samples_to_millis", x.samples_to_millis(y));
        put(s, "seconds_to_samples", x.seconds_to_samples(y));
        put(s, "millis_to_samples", x.millis_to_samples(y));
        let a = if g.below(4) == 0 { g.below(3) as f32 - 1.0 } else { g.f(-1.0, 1.0) };
        for r in [mono_pan(x, y), stereo_pan(x, (y, z)), Ok(mono_pan_unchecked(a, y)), Ok(stereo_pan_unchecked(a, (y, z)))] {
            match r {
                Ok((l, r)) => {
                    put(s, "pan", l);
                    put(s, "pan", r);
                }
                Err(_) => s.word("pan", 0xffff_fffe),
            }
        }
        put(s, "crossfade", crossfade_correlated_unchecked(a, (y, z)));
        put(s, "digital_clip", digital_clip(x));
    }
}

fn bits(g: &mut Rng, s: &mut dyn Sink) {
    for _ in 0..60 {
        let w = g.u32();
        let c = w.to_f32_components();
        s.word("fields", (c.sign as u32) << 31 | (c.exponent as u32) << 23 | c.mantissa);
        s.word("recomposed", u32::from_f32_components(c));
        let x = f32::from_raw_word(w);
        if !x.is_nan() {
            s.word("raw word", x.to_raw_word());
            s.word("float again", f32::from_f32_components(x.to_f32_components()).to_bits());
        }
        let x = g.wild();
        let depth = g.below(40) as u8;
        opt(s, "bit_reduce", bit_reduce(x, depth));
        opt(s, "bit_reduce_exp", bit_reduce_exp(x, depth));
        let x = if g.below(4) == 0 { g.below(3) as f32 - 1.0 } else { g.f(-1.0, 1.0) };
        put(s, "bit_reduce_unchecked", bit_reduce_unchecked(x, depth % 31));
        put(s, "bit_reduce_exp_unchecked", bit_reduce_exp_unchecked(x, depth % 24));
    }
}

fn interpolation(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; 12 + ROOM];
    let m = place(&mut m, 12);
    for _ in 0..30 {
        fill(g, m);
        let n = 1 + g.below(12) as usize;
        let (x, y, z) = (g.wild(), g.wild(), g.wild());
        opt(s, "scalar lerp", lerp(x, y, z));
        put(s, "scalar lerp, unchecked", lerp_unchecked(x, y, g.f(0.0, 1.0)));
        let p = g.f(0.0, (n - 1) as f32);
        put(s, "scalar lagrange", lagrange(&m[..n], if g.below(4) == 0 { g.below(n as u32) as f32 } else { p }));
    }
    let v: MemorySlice<NonMutable> = from_slice(m);
    for _ in 0..20 {
        let p = position(g, 12);
        put(s, "lerp_wrapped", v.lerp_wrapped(p));
        put(s, "lagrange_wrapped", v.lagrange_wrapped(p, 2 + g.below(20) as usize));
    }
}

/// an instrument: oscillator, envelope, filter, reverb, panning
fn voice(g: &mut Rng, s: &mut dyn Sink) {
    let mut m = [0.0f32; 4 * N + ROOM];
    let m = place(&mut m, 4 * N);
    let mut table = [0.0f32; N + ROOM];
    let table = place(&mut table, N);
    fill(g, table);
    let v = from_slice_mut(m);
    let part = |k: usize, n: usize| v.get_sub_slice(k * N, n).ok().unwrap_or(null_mut());
    let mut k1 = Comb::new(part(0, 1 + g.below(N as u32 - 1) as usize));
    let mut k2 = Comb::new(part(1, 1 + g.below(N as u32 - 1) as usize));
    let mut ap = AllPass::new(part(2, 1 + g.below(N as u32 - 1) as usize));
    let mut dl = DelayLine::new(part(3, N));
    let (f, sr) = (g.f(20.0, 5000.0), 48_000.0);
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
    o.set_wave(waveform(g.below(4)));
    let mut w = WavetableOscillator::new(from_slice(table), SoftPhaseAccumulator::new(f * 1.01, sr));
    let mut e = AudioRateADSR::new(g.f(0.0, 0.002), g.f(0.0, 0.002), g.f(0.0, 1.0), g.f(0.0, 0.002), g.scale(-2, 3), sr);
    let mut q: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
    q.coeffs.lowpass(g.f(100.0, 15_000.0), g.f(0.3, 5.0), sr);
    k1.set_feedback(g.f(0.0, 0.9));
    k2.set_dampening(g.f(0.0, 0.9));
    e.trigger_on();
    let gain = g.f(-60.0, 6.0).to_volt_ratio();
    for i in 0..300 {
        if i == 200 {
            e.trigger_off();
        }
        let x = (o.next() + w.next()) * 0.5 * e.tick();
        let x = q.process(x) * gain;
        let y = ap.tick(k1.tick(x) + k2.tick(x));
        dl.write_and_advance(y);
        let y = dl.read_lerp_wrapped_at(-20.5 + 10.0 * (i as f32 * 0.01).lookup_sin());
        let (l, r) = mono_pan_unchecked(g.f(-1.0, 1.0), bit_reduce_unchecked(digital_clip(y), 8));
        put(s, "left", l);
        put(s, "right", r);
    }
    dump(s, m);
}

// ------------------------------------------------------------------------------------ without an OS
pub struct Digest {
    pub hash: u64,
    pub words: u32,
}
impl Digest {
    pub const fn new() -> Digest {
        Digest { hash: 0xcbf2_9ce4_8422_2325, words: 0 }
    }
}
impl Sink for Digest {
    fn word(&mut self, _: &'static str, v: u32) {
        self.hash = (self.hash ^ v as u64).wrapping_mul(0x0000_0100_0000_01b3);
        self.hash ^= self.hash >> 29;
        self.words += 1;
    }
}

#[cfg(target_family = "wasm")]
mod bare {
    use super::*;
    static mut LAST: Digest = Digest::new();
    #[no_mangle]
    pub extern "C" fn hash(seed_lo: u32, seed_hi: u32, case: u32) -> u64 {
        let mut d = Digest::new();
        run((seed_hi as u64) << 32 | seed_lo as u64, case, &mut d);
        let (h, w) = (d.hash, d.words);
        unsafe { LAST = Digest { hash: h, words: w } };
        h
    }
    #[no_mangle]
    pub extern "C" fn place(at: u32) {
        PLACE.store(at as usize, core::sync::atomic::Ordering::Relaxed)
    }
    #[no_mangle]
    pub extern "C" fn words() -> u32 {
        unsafe { LAST.words }
    }
    #[link(wasm_import_module = "env")]
    extern "C" {
        fn tell(what: *const u8, n: usize, v: u32);
    }
    struct Out;
    impl Sink for Out {
        fn word(&mut self, what: &'static str, v: u32) {
            unsafe { tell(what.as_ptr(), what.len(), v) }
        }
    }
    #[no_mangle]
    pub extern "C" fn case_log(seed_lo: u32, seed_hi: u32, case: u32) {
        run((seed_hi as u64) << 32 | seed_lo as u64, case, &mut Out)
    }
    #[panic_handler]
    fn stop(_: &core::panic::PanicInfo) -> ! {
        core::arch::wasm32::unreachable()
    }
}
