//! C40 (homogeneity), C41 (shift invariance), C42 (only the ratio to the sample rate counts): relations
//! between two executions that hold exactly, whatever the order of the arithmetic.
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::float::{lagrange, lagrange_only_4_elements, lerp, lerp_unchecked, DSPUtility};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::{crossfade_correlated_unchecked, mono_pan, mono_pan_unchecked, stereo_pan, stereo_pan_unchecked};
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C40",
            run: c40,
            cases: 120_000,
            systematic: 64,
            miri: 2,
            serial: false,
            rule: "A case runs an effect or a read twice, the second time with all samples multiplied by plus or minus a power of two, and requires exactly multiplied results. Non-trivial: the results are not all zero; distinct by kind, factor and signal.",
            required: &["delay line", "comb", "all-pass", "biquad", "view reads", "wavetable oscillator", "panning", "scalar interpolation", "negated", "tiny factor", "huge factor"],
        },
        Prop {
            id: "C41",
            run: c41,
            cases: 120_000,
            systematic: 64,
            miri: 2,
            serial: false,
            rule: "A case compares an execution with its shifted twin: buffer contents rotated and positions moved along, whole turns added, silence sent ahead of the signal, a delay line some steps further on. Non-trivial: the results are not all zero; distinct by kind, shift and signal.",
            required: &["rotated buffer", "whole turns", "delay line moved on", "silence first: comb", "silence first: all-pass", "silence first: biquad", "phase ahead", "large window", "beyond 2^24", "long run", "ringing out"],
        },
        Prop {
            id: "C42",
            run: c42,
            cases: 120_000,
            systematic: 64,
            miri: 2,
            serial: false,
            rule: "A case runs an instance at one sample rate and again with sample rate and frequencies multiplied (times divided) by the same power of two, and requires identical results. Non-trivial: the factor is not 1; distinct by kind, settings and factor.",
            required: &["design", "accumulator", "functional oscillator", "wavetable oscillator", "envelope", "time conversion", "checked frequency refused", "checked frequency accepted", "high rate", "low rate"],
        },
    ]
}

/// exactly 2^e (the interpreter perturbs powi)
fn two_to(e: i32) -> f32 {
    f32::from_bits(((e + 127) as u32) << 23)
}

/// a sample that stays far from the subnormal range when scaled
fn tone(g: &mut Rng) -> f32 {
    match g.below(12) {
        0 => 0.0,
        1 => g.pick(&[1.0f32, -1.0, 0.5]),
        2 => g.logf(1e-6, 1e-2) * g.pick(&[1.0f32, -1.0]),
        3 => g.f(-100.0, 100.0),
        _ => g.f(-1.0, 1.0),
    }
}

/// cuts take negative gains, boosts positive ones
fn gain_for(g: &mut Rng, op: u64, lo: f64, hi: f64) -> f32 {
    let v = g.logf(lo, hi);
    match op {
        5 | 8 => -v,
        6 | 9 => v * g.pick(&[1.0f32, -1.0]),
        _ => v,
    }
}

fn design(q: &mut BiquadCoeffs<Butterworth>, op: u64, fc: f32, w: f32, gain: f32, sr: f32) {
    match op {
        0 => q.lowpass(fc, w, sr),
        1 => q.highpass(fc, w, sr),
        2 => q.allpass(fc, w, sr),
        3 => q.notch(fc, w, sr),
        4 => q.bell_boost_only(fc, w, gain, sr),
        5 => q.bell_cut_only(fc, w, gain, sr),
        6 => q.bell(fc, w, gain, sr),
        7 => q.low_shelf_boost_only(fc, w, gain, sr),
        8 => q.low_shelf_cut_only(fc, w, gain, sr),
        _ => q.low_shelf(fc, w, gain, sr),
    }
}

// ---------------------------------------------------------------------------------------------
// C40
// ---------------------------------------------------------------------------------------------

fn scaled(c: &mut Ctx, s: f32, y: f32, ys: f32, what: impl FnOnce() -> String) -> R {
    let tr = c.trace();
    let ok = ys == y * s || (ys.is_nan() && y.is_nan());
    c.ok(ok, "not-proportional", || format!("{}: {y:?} times {s:?} is {:?}, but the scaled signal gives {ys:?}; {tr}", what(), y * s))
}

fn c40(c: &mut Ctx) -> R {
    let e = c.rng.range(-40, 40) as i32;
    let neg = c.rng.chance(1, 2);
    let s = two_to(e) * if neg { -1.0 } else { 1.0 };
    if neg {
        c.cov("negated");
    }
    if e < -25 {
        c.cov("tiny factor");
    }
    if e > 25 {
        c.cov("huge factor");
    }
    let kind = c.case % 8;
    c.sig(kind);
    c.sigf(s);
    let n = if c.small() { 1 + c.rng.usize(6) } else if c.rng.chance(1, 20) { 1 + c.rng.usize(300) } else { 1 + c.rng.usize(24) };
    let data: Vec<f32> = (0..n).map(|_| tone(&mut c.rng)).collect();
    let data_s: Vec<f32> = data.iter().map(|v| v * s).collect();
    let (ba, bb) = (Buf::new(c, &data), Buf::new(c, &data_s));
    let steps = if c.small() { 24 } else { 160 };
    let mut alive = false;
    for v in &data {
        c.sigf(*v);
    }
    match kind {
        0 => {
            c.cov("delay line");
            let (mut a, mut b) = (DelayLine::new(ba.view_mut()), DelayLine::new(bb.view_mut()));
            for t in 0..steps {
                let x = tone(&mut c.rng);
                a.write_and_advance(x);
                b.write_and_advance(x * s);
                let o = c.rng.range(-200, 200);
                let f = o as f32 / 16.0;
                for (y, ys, w) in [
                    (a.read(), b.read(), "read"),
                    (a.read_wrapped_at(o as isize), b.read_wrapped_at(o as isize), "whole tap"),
                    (a.read_lerp_wrapped_at(f), b.read_lerp_wrapped_at(f), "linear tap"),
                    (a.read_lagrange_wrapped_at(f), b.read_lagrange_wrapped_at(f), "Lagrange tap"),
                ] {
                    alive |= y != 0.0;
                    scaled(c, s, y, ys, || format!("delay line of {n}, {w} at {o} (fractional {f:?}) in step {t}"))?;
                }
            }
        }
        1 => {
            c.cov("comb");
            let (mut a, mut b) = (Comb::new(ba.view_mut()), Comb::new(bb.view_mut()));
            let (mut fb, mut dm) = (0.5, 0.5);
            for t in 0..steps {
                if c.rng.chance(1, 30) {
                    fb = c.rng.range(-62, 62) as f32 / 64.0;
                    dm = c.rng.range(0, 64) as f32 / 64.0;
                    for k in [&mut a, &mut b] {
                        k.set_feedback(fb);
                        k.set_dampening(dm);
                    }
                }
                let x = tone(&mut c.rng);
                let (y, ys) = (a.tick(x), b.tick(x * s));
                alive |= y != 0.0;
                scaled(c, s, y, ys, || format!("comb of {n} (feedback {fb:?}, dampening {dm:?}), step {t}"))?;
            }
        }
        2 => {
            c.cov("all-pass");
            let (mut a, mut b) = (AllPass::new(ba.view_mut()), AllPass::new(bb.view_mut()));
            for t in 0..steps {
                let x = tone(&mut c.rng);
                let (y, ys) = (a.tick(x), b.tick(x * s));
                alive |= y != 0.0;
                scaled(c, s, y, ys, || format!("all-pass of {n}, step {t}"))?;
            }
        }
        3 => {
            c.cov("biquad");
            let mut a = Biquad::new(BiquadCoeffs::<Butterworth>::new());
            let mut b = Biquad::new(BiquadCoeffs::<Butterworth>::new());
            for t in 0..steps {
                if t == 0 || c.rng.chance(1, 50) {
                    let (op, fc, w) = (c.rng.below(10), c.rng.logf(100.0, 20_000.0), c.rng.logf(0.2, 20.0));
                    let gain = gain_for(&mut c.rng, op, 0.1, 10.0);
                    design(&mut a.coeffs, op, fc, w, gain, 48_000.0);
                    design(&mut b.coeffs, op, fc, w, gain, 48_000.0);
                    c.note(|| format!("{t}: design {op} fc {fc:?} q {w:?} gain {gain:?}"));
                }
                let x = tone(&mut c.rng);
                let (y, ys) = (a.process(x), b.process(x * s));
                alive |= y != 0.0;
                scaled(c, s, y, ys, || format!("biquad, step {t}"))?;
            }
        }
        4 => {
            c.cov("view reads");
            let (va, vb) = (ba.view(), bb.view());
            for _ in 0..steps / 3 {
                let p = c.rng.range(-4000, 4000) as f32 / 16.0;
                let w = 2 + c.rng.usize(12);
                let inside = (c.rng.usize(16 * n) as f32 / 16.0).min((n - 1) as f32);
                for (y, ys, what) in [
                    (va.lerp_wrapped(p), vb.lerp_wrapped(p), "wrapped linear read"),
                    (va.lagrange_wrapped(p, w), vb.lagrange_wrapped(p, w), "Lagrange read"),
                    (va.lagrange_four_points_wrapped(p), vb.lagrange_four_points_wrapped(p), "four-point read"),
                    (va.get_wrapped(p as isize), vb.get_wrapped(p as isize), "wrapped read"),
                    (va.lerp(inside).unwrap_or(f32::NAN), vb.lerp(inside).unwrap_or(f32::NAN), "checked linear read"),
                ] {
                    alive |= y != 0.0;
                    scaled(c, s, y, ys, || format!("{what} over {n} samples at {p:?} (window {w}, inside {inside:?})"))?;
                }
            }
        }
        5 => {
            c.cov("wavetable oscillator");
            let f = c.rng.f(1.0, 20_000.0);
            let mut a = WavetableOscillator::new(ba.view(), SoftPhaseAccumulator::new(f, 48_000.0));
            let mut b = WavetableOscillator::new(bb.view(), SoftPhaseAccumulator::new(f, 48_000.0));
            for t in 0..steps {
                let (y, ys) = (a.next(), b.next());
                alive |= y != 0.0;
                // an interpolation fraction next to 0 times the table may underflow: judged when it cannot
                if y == 0.0 || y.abs() > 1e-15 {
                    scaled(c, s, y, ys, || format!("table of {n} at {f:?} Hz, step {t}"))?;
                }
            }
        }
        6 => {
            c.cov("panning");
            for _ in 0..steps {
                let a = c.rng.range(-64, 64) as f32 / 64.0;
                let (x, y) = (tone(&mut c.rng), tone(&mut c.rng));
                let (m, ms) = (mono_pan_unchecked(a, x), mono_pan_unchecked(a, x * s));
                let (t, ts) = (stereo_pan_unchecked(a, (x, y)), stereo_pan_unchecked(a, (x * s, y * s)));
                let (m2, t2) = (mono_pan(a, x * s).unwrap(), stereo_pan(a, (x * s, y * s)).unwrap());
                let (f, fs) = (crossfade_correlated_unchecked(a, (x, y)), crossfade_correlated_unchecked(a, (x * s, y * s)));
                for (v, vs, what) in [
                    (m.0, ms.0, "mono left"),
                    (m.1, ms.1, "mono right"),
                    (t.0, ts.0, "stereo left"),
                    (t.1, ts.1, "stereo right"),
                    (m.0, m2.0, "checked mono left"),
                    (m.1, m2.1, "checked mono right"),
                    (t.0, t2.0, "checked stereo left"),
                    (t.1, t2.1, "checked stereo right"),
                    (f, fs, "crossfade"),
                ] {
                    alive |= v != 0.0;
                    scaled(c, s, v, vs, || format!("{what} of {x:?}, {y:?} at {a:?}"))?;
                }
            }
        }
        _ => {
            c.cov("scalar interpolation");
            for _ in 0..steps / 2 {
                let (x, y) = (tone(&mut c.rng), tone(&mut c.rng));
                let t = c.rng.range(0, 64) as f32 / 64.0;
                let k = 2 + c.rng.usize(10);
                let nodes: Vec<f32> = (0..k.max(4)).map(|_| tone(&mut c.rng)).collect();
                let nodes_s: Vec<f32> = nodes.iter().map(|v| v * s).collect();
                let p = c.rng.range(0, 16 * (k as i64 - 1)) as f32 / 16.0;
                let p4 = c.rng.range(0, 48) as f32 / 16.0;
                for (v, vs, what) in [
                    (lerp_unchecked(x, y, t), lerp_unchecked(x * s, y * s, t), "linear"),
                    (lerp_unchecked(x, y, t), lerp(x * s, y * s, t).unwrap_or(f32::NAN), "checked linear"),
                    (lagrange(&nodes[..k], p), lagrange(&nodes_s[..k], p), "Lagrange"),
                    (unsafe { lagrange_only_4_elements(&nodes, p4) }, unsafe { lagrange_only_4_elements(&nodes_s, p4) }, "four-point Lagrange"),
                ] {
                    alive |= v != 0.0;
                    scaled(c, s, v, vs, || format!("{what} of {x:?}, {y:?} at {t:?} / {k} nodes at {p:?}, {p4:?}"))?;
                }
            }
        }
    }
    if alive {
        c.nontrivial();
    }
    let t = format!("kind {kind}, factor {s:e}, {n} samples; {}", c.trace());
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C41
// ---------------------------------------------------------------------------------------------

fn same(c: &mut Ctx, a: f32, b: f32, what: impl FnOnce() -> String) -> R {
    let tr = c.trace();
    c.ok(a == b || (a.is_nan() && b.is_nan()), "shifted", || format!("{}: {a:?} against {b:?} when shifted; {tr}", what()))
}

fn c41(c: &mut Ctx) -> R {
    let kind = c.case % 6;
    c.sig(kind);
    let n = if c.small() { 1 + c.rng.usize(6) } else if c.rng.chance(1, 20) { 1 + c.rng.usize(400) } else { 1 + c.rng.usize(30) };
    let data: Vec<f32> = (0..n).map(|_| tone(&mut c.rng)).collect();
    for v in &data {
        c.sigf(*v);
    }
    let k = c.rng.usize(n);
    c.sig(k as u64);
    let mut alive = false;
    let steps = if c.small() { 24 } else { 120 };
    match kind {
        0 | 1 => {
            // sample j of the original is sample j + k of the rotated one
            let rot: Vec<f32> = (0..n).map(|j| data[(j + n - k) % n]).collect();
            let (ba, bb) = (Buf::new(c, &data), Buf::new(c, if kind == 0 { &rot } else { &data }));
            let (va, vb) = (ba.view(), bb.view_mut());
            for _ in 0..steps / 3 {
                let p = c.rng.range(-8000, 8000) as f64 / 16.0;
                let turns = c.rng.range(-20, 20) * n as i64;
                let by = if kind == 0 {
                    c.cov("rotated buffer");
                    k as i64
                } else {
                    c.cov("whole turns");
                    turns
                };
                let q = p + by as f64;
                let w = if c.small() || c.rng.chance(3, 4) { 2 + c.rng.usize(12) } else { 2 + c.rng.usize(99) };
                if w > 20 {
                    c.cov("large window");
                }
                let (pf, qf) = (p as f32, q as f32);
                let (pi, qi) = (p.floor() as isize, q.floor() as isize);
                let (f4, g4) = (va.get_slice_of_four_wrapped(pi), vb.get_slice_of_four_wrapped(qi));
                for j in 0..4 {
                    same(c, f4[j], g4[j], || format!("element {j} of the four at {pi} of {n}, shifted by {by}"))?;
                }
                for (a, b, what) in [
                    (va.get_wrapped(pi), vb.get_wrapped(qi), "wrapped read"),
                    (va.lerp_wrapped(pf), vb.lerp_wrapped(qf), "wrapped linear read"),
                    (va.lagrange_wrapped(pf, w), vb.lagrange_wrapped(qf, w), "Lagrange read"),
                    (va.lagrange_four_points_wrapped(pf), vb.lagrange_four_points_wrapped(qf), "four-point read"),
                ] {
                    alive |= a != 0.0;
                    same(c, a, b, || format!("{what} at {pf:?} of {n} samples (window {w}), shifted by {by}"))?;
                }
                // a distant whole position is as many turns away from one inside the buffer
                let far = c.rng.logf(1e3, 4e18) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 };
                let far = far.round();
                let near = (far as i128).rem_euclid(n as i128) as usize;
                let there = if kind == 0 { (near + k) % n } else { near };
                c.cov(if far.abs() >= 16_777_216.0 { "beyond 2^24" } else { "distant" });
                same(c, va.lerp_wrapped(far), vb.lerp_wrapped(there as f32), || format!("wrapped linear read at {far:?} of {n} samples and at {there} after the shift"))?;
                if far.abs() < isize::MAX as f32 {
                    // a position this target's indices can express
                    same(c, va.get_wrapped(far as isize), vb.get_wrapped(there as isize), || format!("wrapped read at {far:?} of {n} samples and at {there} after the shift"))?;
                    let (f4, g4) = (va.get_slice_of_four_wrapped(far as isize), vb.get_slice_of_four_wrapped(there as isize));
                    c.ok(f4.map(f32::to_bits) == g4.map(f32::to_bits), "moved", || format!("four samples at {far:?} of {n}: {f4:?}, at {there} after the shift {g4:?}"))?;
                }
            }
        }
        2 => {
            // a delay line m steps further on, tapped m slots less far ahead
            c.cov("delay line moved on");
            let ba = Buf::new(c, &data);
            let a = DelayLine::new(ba.view_mut());
            let mut b = a;
            let m = c.rng.usize(3 * n + 1);
            for _ in 0..m {
                b.advance();
            }
            for _ in 0..steps / 2 {
                let o = c.rng.range(-300, 300);
                let f = c.rng.range(-4000, 4000) as f64 / 16.0;
                for (x, y, what) in [
                    (a.read_wrapped_at(o as isize), b.read_wrapped_at((o - m as i64) as isize), "whole tap"),
                    (a.read_wrapped_at(m as isize), b.read(), "plain read"),
                    (a.read_lerp_wrapped_at(f as f32), b.read_lerp_wrapped_at((f - m as f64) as f32), "linear tap"),
                    (a.read_lagrange_wrapped_at(f as f32), b.read_lagrange_wrapped_at((f - m as f64) as f32), "Lagrange tap"),
                ] {
                    alive |= x != 0.0;
                    same(c, x, y, || format!("{what} at {o} / {f:?} of {n} samples, {m} steps on"))?;
                }
            }
        }
        3 | 4 => {
            // silence in front of the signal only delays the result
            let zero = vec![0.0; n];
            let (ba, bb) = (Buf::new(c, &zero), Buf::new(c, &zero));
            let long = !c.small() && c.rng.chance(1, 60);
            let m = if long { c.rng.usize(9000) } else { c.rng.usize(3 * n + 2) };
            let total = if long { 4096 + c.rng.usize(8192) } else { steps + n };
            // a signal that goes on, or a burst that rings out
            let burst = if c.rng.chance(1, 2) { 1 + c.rng.usize(20) } else { total };
            if long {
                c.cov("long run");
            }
            if burst < total {
                c.cov("ringing out");
            }
            let input: Vec<f32> = (0..total).map(|t| if t < burst { tone(&mut c.rng) } else { 0.0 }).collect();
            enum E {
                C(Comb),
                A(AllPass),
                B(Biquad<Butterworth>),
            }
            impl E {
                fn tick(&mut self, x: f32) -> f32 {
                    match self {
                        E::C(e) => e.tick(x),
                        E::A(e) => e.tick(x),
                        E::B(e) => e.process(x),
                    }
                }
            }
            let (mut a, mut b) = if kind == 3 {
                c.cov("silence first: comb");
                let (fb, dm) = (c.rng.f(-0.95, 0.95), c.rng.f(0.0, 1.0));
                c.note(|| format!("comb of {n}, feedback {fb:?}, dampening {dm:?}"));
                let mk = |v| {
                    let mut k = Comb::new(v);
                    k.set_feedback(fb);
                    k.set_dampening(dm);
                    k
                };
                (E::C(mk(ba.view_mut())), E::C(mk(bb.view_mut())))
            } else if c.rng.chance(1, 2) {
                c.cov("silence first: all-pass");
                c.note(|| format!("all-pass of {n}"));
                (E::A(AllPass::new(ba.view_mut())), E::A(AllPass::new(bb.view_mut())))
            } else {
                c.cov("silence first: biquad");
                let (op, fc, w) = (c.rng.below(10), c.rng.logf(100.0, 20_000.0), c.rng.logf(0.2, 20.0));
                let gain = gain_for(&mut c.rng, op, 0.1, 10.0);
                c.note(|| format!("biquad design {op} fc {fc:?} q {w:?} gain {gain:?}"));
                let mk = || {
                    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
                    design(&mut q.coeffs, op, fc, w, gain, 48_000.0);
                    q
                };
                (E::B(mk()), E::B(mk()))
            };
            for t in 0..m {
                let y = b.tick(0.0);
                c.ok(y == 0.0, "noise", || format!("{y:?} out of silence in step {t}"))?;
            }
            for (t, x) in input.iter().enumerate() {
                let (y, z) = (a.tick(*x), b.tick(*x));
                alive |= y != 0.0;
                same(c, y, z, || format!("step {t} after {m} silent ones"))?;
            }
        }
        _ => {
            // an accumulator k steps ahead is one with the phase of k steps added
            c.cov("phase ahead");
            let sr = c.rng.pick(&[44_100.0f32, 48_000.0, 96_000.0]);
            let f = c.rng.f(0.1, sr as f64 / 2.0);
            let m = c.rng.below(200) as u32;
            let mut a = SoftPhaseAccumulator::new(f, sr);
            let mut b = SoftPhaseAccumulator::new(f, sr);
            let (mut o1, mut o2) = (FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr)), FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr)));
            let ahead = c.rng.chance(1, 2);
            let mut step = 0u32;
            for t in 0..m {
                let v = a.next_value();
                if t == 0 {
                    step = v;
                }
            }
            b.set_phase_shift(step.wrapping_mul(m));
            for t in 0..steps {
                let (x, y) = (a.next_value(), b.next_value());
                alive |= x != 0;
                c.ok(x == y, "shifted", || format!("{f:?} Hz at {sr:?}: step {t} after {m} gives phase {x:#x}, a new accumulator shifted by {m} steps {y:#x}"))?;
            }
            // half a cycle and a whole number of steps: waveforms only depend on the phase
            if ahead {
                let w = c.rng.below(4);
                for o in [&mut o1, &mut o2] {
                    o.set_wave(match w {
                        0 => Waveform::Sine,
                        1 => Waveform::Rectangle,
                        2 => Waveform::Sawtooth,
                        _ => Waveform::Triangle,
                    });
                }
                o2.set_phase_shift_unchecked(0.25);
                o2.set_phase_shift_unchecked(0.0);
                for t in 0..steps {
                    let (x, y) = (o1.next(), o2.next());
                    same(c, x, y, || format!("waveform {w} at {f:?} Hz step {t}, the second with its shift taken back"))?;
                }
            }
        }
    }
    if alive {
        c.nontrivial();
    }
    let t = format!("kind {kind}, {n} samples, shift {k}; {}", c.trace());
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C42
// ---------------------------------------------------------------------------------------------

fn c42(c: &mut Ctx) -> R {
    let kind = c.case % 6;
    c.sig(kind);
    // both rates within 100 Hz to 192 kHz
    let lo = if c.rng.chance(1, 3) { c.rng.pick(&[100.0f32, 750.0, 6000.0, 11_025.0]) } else { c.rng.logf(100.0, 12_000.0) };
    let e = c.rng.range(1, 4) as i32;
    let m = two_to(e);
    let (sr1, sr2) = if c.rng.chance(1, 2) { (lo, lo * m) } else { (lo * m, lo) };
    let m = sr2 / sr1;
    if sr1.max(sr2) > 90_000.0 {
        c.cov("high rate");
    }
    if lo < 1000.0 {
        c.cov("low rate");
    }
    c.sigf(sr1);
    c.sigf(m);
    let steps = if c.small() { 24 } else { 120 };
    match kind {
        0 => {
            c.cov("design");
            let op = c.rng.below(10);
            let fc = sr1 * c.rng.logf(0.0003, 0.499);
            let w = c.rng.logf(0.05, 100.0);
            let gain = gain_for(&mut c.rng, op, 0.05, 30.0);
            c.sig(op);
            c.sigf(fc);
            let (mut a, mut b) = (BiquadCoeffs::<Butterworth>::new(), BiquadCoeffs::<Butterworth>::new());
            design(&mut a, op, fc, w, gain, sr1);
            design(&mut b, op, fc * m, w, gain, sr2);
            let (x, y) = ([a.b0, a.b1, a.b2, a.a1, a.a2], [b.b0, b.b1, b.b2, b.a1, b.a2]);
            for i in 0..5 {
                c.ok(x[i] == y[i] || (x[i].is_nan() && y[i].is_nan()), "rate", || format!("design {op}, q {w:?}, gain {gain:?}: {fc:?} Hz at {sr1:?} gives {x:?}, {:?} Hz at {sr2:?} gives {y:?}", fc * m))?;
            }
        }
        1 => {
            c.cov("accumulator");
            let f = c.rng.f(0.01, sr1 as f64 * 0.7);
            c.sigf(f);
            let (mut a, mut b) = (SoftPhaseAccumulator::new(f, sr1), SoftPhaseAccumulator::new(f * m, sr2));
            let mut f = f;
            for t in 0..steps {
                if c.rng.chance(1, 20) {
                    let g = c.rng.pick(&[0.1f64, 0.3, 0.499_999, 0.5, 0.500_001, 0.6, -0.2, 0.0]) * sr1 as f64;
                    let g = match c.rng.below(4) {
                        // a few hertz or a tiny fraction from the limits
                        0 => (sr1 as f64 * 0.5 + c.rng.f(-3.0, 3.0) as f64) as f32,
                        1 => c.rng.logf(1e-20, 1.0) * c.rng.pick(&[1.0f32, -1.0]),
                        _ => g as f32,
                    };
                    let verdict = |r: Result<(), FrequencyError>| match r {
                        Ok(()) => 0,
                        Err(FrequencyError::Zero) => 1,
                        Err(FrequencyError::Negative) => 2,
                        Err(FrequencyError::BiggerThanNyquist) => 3,
                    };
                    let (x, y) = (verdict(a.set_freq(g)), verdict(b.set_freq(g * m)));
                    c.cov(if x == 0 { "checked frequency accepted" } else { "checked frequency refused" });
                    c.ok(x == y, "verdict", || format!("{g:?} Hz at {sr1:?} gets verdict {x} (0 accepted, 1 zero, 2 negative, 3 too high); {:?} Hz at {sr2:?} verdict {y}", g * m))?;
                    if x == 0 {
                        f = g;
                    }
                }
                let (x, y) = (a.next_value(), b.next_value());
                c.ok(x == y, "rate", || format!("step {t}: {f:?} Hz at {sr1:?} gives phase {x:#x}, {:?} Hz at {sr2:?} gives {y:#x}", f * m))?;
            }
        }
        2 | 3 => {
            c.cov(if kind == 2 { "functional oscillator" } else { "wavetable oscillator" });
            let f = c.rng.f(0.01, sr1 as f64 * 0.49);
            let sh = c.rng.f(0.0, 1.0);
            c.sigf(f);
            let n = 1 + c.rng.usize(40);
            let data: Vec<f32> = (0..n).map(|_| tone(&mut c.rng)).collect();
            let buf = Buf::new(c, &data);
            let w = c.rng.below(4);
            let run = |f: f32, sr: f32, late: bool| -> Vec<f32> {
                let acc = if late { SoftPhaseAccumulator::new(1.0, 1000.0) } else { SoftPhaseAccumulator::new(f, sr) };
                if kind == 2 {
                    let mut o = FunctionalOscillator::new(acc);
                    o.set_freq_unchecked(f);
                    o.set_sr_unchecked(sr);
                    o.set_phase_shift_unchecked(sh);
                    o.set_wave(match w {
                        0 => Waveform::Sine,
                        1 => Waveform::Rectangle,
                        2 => Waveform::Sawtooth,
                        _ => Waveform::Triangle,
                    });
                    (0..steps).map(|_| o.next()).collect()
                } else {
                    let mut o = WavetableOscillator::new(buf.view(), acc);
                    o.set_freq_unchecked(f);
                    o.set_sr_unchecked(sr);
                    o.set_phase_shift_unchecked(sh);
                    (0..steps).map(|_| o.next()).collect()
                }
            };
            let (x, y) = (run(f, sr1, false), run(f * m, sr2, true));
            for t in 0..x.len() {
                c.ok(x[t] == y[t], "rate", || format!("oscillator kind {kind}, waveform {w}, table {n}, step {t}: {f:?} Hz at {sr1:?} gives {:?}, {:?} Hz at {sr2:?} gives {:?}", x[t], f * m, y[t]))?;
            }
        }
        4 => {
            c.cov("envelope");
            let t = |c: &mut Ctx| match c.rng.below(6) {
                0 => 0.0f32,
                1 => c.rng.f(0.0, 2.0) / sr1,
                _ => (c.rng.f(0.0, 60.0) / sr1).min(0.05),
            };
            let (a, d, r, s, k) = (t(c), t(c), t(c), c.rng.f(0.0, 1.0), c.rng.logf(0.1, 10.0));
            for v in [a, d, r, s, k] {
                c.sigf(v);
            }
            let mut x = AudioRateADSR::new(a, d, s, r, k, sr1);
            let mut y = AudioRateADSR::new(a / m, d / m, s, r / m, k, sr2);
            c.note(|| format!("attack {a:?}, decay {d:?}, sustain {s:?}, release {r:?}, slope {k:?} at {sr1:?} against times divided by {m:?} at {sr2:?}"));
            for i in 0..steps {
                match c.rng.below(20) {
                    0 | 1 => {
                        x.trigger_on();
                        y.trigger_on();
                        c.note(|| format!("{i}: on"));
                    }
                    2 => {
                        x.trigger_off();
                        y.trigger_off();
                        c.note(|| format!("{i}: off"));
                    }
                    3 => {
                        let v = t(c);
                        let k = c.rng.below(3);
                        match k {
                            0 => (x.set_attack(v), y.set_attack(v / m)),
                            1 => (x.set_decay(v), y.set_decay(v / m)),
                            _ => (x.set_release(v), y.set_release(v / m)),
                        };
                        c.note(|| format!("{i}: time {k} to {v:?}"));
                    }
                    _ => {}
                }
                let (p, q) = (x.tick(), y.tick());
                let tr = c.trace();
                c.ok(p == q, "rate", || format!("step {i} gives {p:?} and {q:?}; {tr}"))?;
                c.ok(x.get_state() as u32 == y.get_state() as u32, "stage", || format!("step {i}: different stages; {tr}"))?;
            }
        }
        _ => {
            c.cov("time conversion");
            for _ in 0..steps / 4 {
                let v = c.rng.logf(1e-3, 1e7);
                for (a, b, what) in [
                    (v.samples_to_seconds(sr1), v.samples_to_seconds(sr2) * m, "samples to seconds"),
                    (v.samples_to_millis(sr1), v.samples_to_millis(sr2) * m, "samples to milliseconds"),
                    (v.seconds_to_samples(sr1) * m, v.seconds_to_samples(sr2), "seconds to samples"),
                    (v.millis_to_samples(sr1) * m, v.millis_to_samples(sr2), "milliseconds to samples"),
                ] {
                    c.ok(a == b, "rate", || format!("{what} of {v:?}: {a:?} at {sr1:?}, {b:?} at {sr2:?} (brought to the same rate)"))?;
                }
                c.sigf(v);
            }
        }
    }
    c.nontrivial();
    let t = format!("kind {kind}, {sr1:?} against {sr2:?}; {}", c.trace());
    c.sample(|| t);
    Ok(())
}
