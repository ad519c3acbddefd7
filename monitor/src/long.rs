//! Marathons: one instance kept running far beyond the point where a 16-bit, 17-bit or (in one case
//! per run) 24-bit step count or a single-precision age has run out; in the thorough tier one case
//! passes 32 bits where a step is cheap enough.
use crate::core::*;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};

const EPS: f64 = 6e-8;

/// whether this case is a marathon, and which one
pub fn turn(c: &Ctx, every: u64) -> Option<u64> {
    if c.small() || c.case % every != every - 1 {
        return None;
    }
    Some(c.case / every)
}

fn length(c: &mut Ctx, k: u64, cheap: bool) -> u64 {
    let n = match k % 64 {
        1 => (1 << 24) + 70_000,
        2 if cheap && c.thorough && c.mode == Mode::Release && k == 2 => (1 << 32) + 70_000,
        _ => c.rng.pick(&[66_000u64, 70_000, 132_000, 140_000, 264_000, 1_060_000]) + c.rng.below(3000),
    };
    c.cov("marathon");
    if n > 1 << 24 {
        c.cov("marathon beyond 2^24");
    }
    if n > 1 << 32 {
        c.cov("marathon beyond 2^32");
    }
    c.sig(n);
    n
}

/// white noise, an impulse now and then, or silence, changing every few thousand steps
struct Source {
    s: u64,
    kind: u64,
}
impl Source {
    fn new(c: &mut Ctx) -> Source {
        Source { s: c.rng.u64() | 1, kind: c.rng.below(4) }
    }
    #[inline(always)]
    fn next(&mut self, t: u64) -> f32 {
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        let r = (self.s >> 40) as f32 / 8388608.0 - 1.0;
        match (t >> 12).wrapping_add(self.kind) & 3 {
            0 | 1 => r,
            2 => {
                if t & 511 == 0 {
                    1.0
                } else {
                    0.0
                }
            }
            _ => r * 1e-4,
        }
    }
}

pub fn run(c: &mut Ctx, k: u64) -> R {
    match c.prop {
        "C07" => delay(c, k),
        "C08" => comb(c, k),
        "C09" => allpass(c, k),
        "C10" => biquad(c, k),
        "C14" | "C15" | "C17" => envelope(c, k),
        "C18" => accumulator(c, k),
        "C19" => oscillator(c, k),
        "C20" => wavetable(c, k),
        "C37" => calls(c, k),
        _ => Ok(()),
    }?;
    c.nontrivial();
    let t = c.trace();
    c.sample(|| format!("marathon: {t}"));
    Ok(())
}

/// a buffer, now and then a long one whose positions need more than 16 bits; and the number of steps,
/// enough to go through it three times
fn ring(c: &mut Ctx, k: u64, steps: u64) -> (usize, Vec<f32>, Buf, u64) {
    let n = if k % 3 == 0 {
        c.cov("marathon over a long buffer");
        c.rng.pick(&[32_767usize, 65_535, 65_536, 65_537, 66_000, 70_000, 100_000, 131_072, 140_000]) + c.rng.usize(2)
    } else if c.rng.chance(1, 3) { 1 + c.rng.usize(4) } else { 1 + c.rng.usize(700) };
    let init: Vec<f32> = (0..n).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let b = Buf::new(c, &init);
    c.sig(n as u64);
    (n, init, b, steps.max(3 * n as u64))
}

fn delay(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false);
    let (n, mut model, buf, steps) = ring(c, k, steps);
    c.note(|| format!("delay line of {n} for {steps} steps"));
    let mut d = DelayLine::new(buf.view_mut());
    let mut src = Source::new(c);
    let mut at = 0usize;
    for t in 0..steps {
        let x = src.next(t);
        let y = d.read();
        if y.to_bits() != model[at].to_bits() {
            return Err(viol("long", format!("delay line of {n}, step {t}: read {y:?}, {n} steps ago {:?} was written", model[at])));
        }
        if t % 61 == 0 {
            let far = 1000.max(2 * n as i64);
            let off = c.rng.range(-far, far);
            let i = (at as i64 + off).rem_euclid(n as i64) as usize;
            let y = d.read_wrapped_at(off as isize);
            if y.to_bits() != model[i].to_bits() {
                return Err(viol("long", format!("delay line of {n}, step {t}: tap {off} read {y:?}, expected {:?}", model[i])));
            }
        }
        if t % 1021 == 7 {
            d.advance();
        } else {
            d.write_and_advance(x);
            model[at] = x;
            if buf.get(at).to_bits() != x.to_bits() {
                return Err(viol("long", format!("delay line of {n}, step {t}: {x:?} written, slot {at} holds {:?}", buf.get(at))));
            }
        }
        at = if at + 1 == n { 0 } else { at + 1 };
        c.obs.evals += 2;
        if t % 65_536 == 65_535 {
            buf.check(c, &model, "delay line buffer")?;
        }
    }
    buf.check(c, &model, "delay line buffer")
}

fn comb(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false);
    let (n, mut model, buf, steps) = ring(c, k, steps);
    let mut f = Comb::new(buf.view_mut());
    let (mut fb, mut dm) = (0.5f32, 0.5f32);
    let mut src = Source::new(c);
    let (mut at, mut lp, mut lt) = (0usize, 0.0f64, 0.0f64);
    for t in 0..steps {
        if t % 50_000 == 13 {
            fb = c.rng.f(-0.98, 0.98);
            dm = c.rng.f(0.0, 0.99);
            f.set_feedback(fb);
            f.set_dampening(dm);
            c.note(|| format!("comb of {n}, step {t}: feedback {fb:?}, dampening {dm:?}"));
        }
        let x = src.next(t);
        let y = f.tick(x);
        if y != model[at] {
            return Err(viol("long", format!("comb of {n} (feedback {fb:?}, dampening {dm:?}), step {t}: output {y:?}, stored {n} steps ago {:?}", model[at])));
        }
        let (o, d, b) = (y as f64, dm as f64, fb as f64);
        let mag = o.abs() + lp.abs();
        lp = o * (1.0 - d) + lp * d;
        lt = lt * d + 3.0 * 2.0 * EPS * (mag + lp.abs()) + 1e-44;
        let want = x as f64 + lp * b;
        let tol = lt * b.abs() + 4.0 * EPS * (x.abs() as f64 + (lp * b).abs()) + 1e-44;
        let got = buf.get(at);
        if !((got as f64 - want).abs() <= tol) {
            return Err(viol("long", format!("comb of {n} (feedback {fb:?}, dampening {dm:?}), step {t}: stored {got:?}, expected {want:?} +- {tol:e}")));
        }
        model[at] = got;
        at = if at + 1 == n { 0 } else { at + 1 };
        c.obs.evals += 2;
        if t % 65_536 == 65_535 {
            buf.check(c, &model, "comb buffer")?;
        }
    }
    buf.check(c, &model, "comb buffer")
}

fn allpass(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false);
    let (n, mut model, buf, steps) = ring(c, k, steps);
    c.note(|| format!("all-pass of {n} for {steps} steps"));
    let mut f = AllPass::new(buf.view_mut());
    let mut src = Source::new(c);
    let mut at = 0usize;
    for t in 0..steps {
        let x = src.next(t);
        let y = f.tick(x) as f64;
        let (d, xd) = (model[at] as f64, x as f64);
        let tol = 2.0 * EPS * (d.abs() + xd.abs()) + 1e-44;
        let got = buf.get(at);
        if !((y - (d - xd)).abs() <= tol) || !((got as f64 - (xd + d / 2.0)).abs() <= tol) {
            return Err(viol("long", format!("all-pass of {n}, step {t}: input {x:?}, {n} steps ago {d:?} was stored; output {y:?}, now stored {got:?}")));
        }
        model[at] = got;
        at = if at + 1 == n { 0 } else { at + 1 };
        c.obs.evals += 2;
        if t % 65_536 == 65_535 {
            buf.check(c, &model, "all-pass buffer")?;
        }
    }
    buf.check(c, &model, "all-pass buffer")
}

fn biquad(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false);
    let mut f: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
    let mut src = Source::new(c);
    let mut h = [(0.0f64, 0.0f64, [0.0f64; 5]); 2];
    let mut co = [0.0f64; 5];
    for t in 0..steps {
        if t % 60_000 == 0 {
            let (op, fc, q, g) = (c.rng.below(6), c.rng.logf(20.0, 15_000.0), c.rng.logf(0.3, 15.0), c.rng.logf(1.0, 8.0) * c.rng.pick(&[1.0f32, -1.0]));
            let m = &mut f.coeffs;
            match op {
                0 => m.lowpass(fc, q, 48_000.0),
                1 => m.highpass(fc, q, 48_000.0),
                2 => m.notch(fc, q, 48_000.0),
                3 => m.allpass(fc, q, 48_000.0),
                4 => m.bell(fc, q, g, 48_000.0),
                _ => m.low_shelf(fc, q, g, 48_000.0),
            }
            co = [m.b0 as f64, m.b1 as f64, m.b2 as f64, m.a1 as f64, m.a2 as f64];
            c.note(|| format!("step {t}: design {op} at {fc:?}, Q {q:?}, gain {g:?}"));
        }
        let x = src.next(t);
        let y = f.process(x) as f64;
        let w = [co[0] * x as f64, h[0].2[1] * h[0].0, -h[0].2[3] * h[0].1, h[1].2[2] * h[1].0, -h[1].2[4] * h[1].1];
        let (want, mag) = w.iter().fold((0.0, 0.0), |(s, m), v| (s + v, m + v.abs()));
        if !((y - want).abs() <= 8.0 * EPS * mag + 1e-43) {
            let tr = c.trace();
            return Err(viol("long", format!("biquad step {t}, input {x:?}: output {y:?}, the difference equation gives {want:?}; {tr}")));
        }
        h[1] = h[0];
        h[0] = (x as f64, y, co);
        c.obs.evals += 1;
    }
    Ok(())
}

fn envelope(c: &mut Ctx, k: u64) -> R {
    use EnvelopeState::*;
    let steps = length(c, k, false);
    let sr = c.rng.pick(&[1000.0f32, 8000.0, 48_000.0]);
    let time = |c: &mut Ctx| c.rng.f(0.0, 200.0 / sr as f64);
    let (a, d, r, s, sl) = (time(c), time(c), time(c), c.rng.f(0.05, 0.95), c.rng.logf(0.2, 5.0));
    c.note(|| format!("attack {a:?}, decay {d:?}, sustain {s:?}, release {r:?}, slope {sl:?} at {sr:?} Hz, {steps} ticks per hold"));
    let mut e = AudioRateADSR::new(a, d, s, r, sl, sr);
    let mut level = s;
    // held for a long time: before the first gate, in the sustain, after the release, and again
    for round in 0..3 {
        for t in 0..steps {
            let y = e.tick();
            if y != 0.0 || e.get_state() != Idle {
                let st = e.get_state();
                return Err(viol("long-idle", format!("round {round}: tick {t} of the idle envelope gives {y:?} in {st:?}; {}", c.trace())));
            }
        }
        c.obs.evals += steps;
        e.trigger_on();
        let mut reached = None;
        for t in 0..500 {
            let y = e.tick();
            c.ok((0.0..=1.0).contains(&y), "long", || format!("round {round}: tick {t} after the gate gives {y:?}"))?;
            if e.get_state() == Sustain {
                reached = Some(y);
                break;
            }
        }
        let tr = c.trace();
        c.ok(reached == Some(level), "long-gate", || format!("round {round}: the envelope did not get to its sustain level {level:?} after {steps} idle ticks: {reached:?}; {tr}"))?;
        for t in 0..steps {
            if t % 50_000 == 49_000 {
                level = c.rng.f(0.0, 1.0);
                e.set_sustain(level);
            }
            let y = e.tick();
            if y != level || e.get_state() != Sustain {
                let st = e.get_state();
                return Err(viol("long-sustain", format!("round {round}: tick {t} of the sustain at {level:?} gives {y:?} in {st:?}; {}", c.trace())));
            }
        }
        c.obs.evals += steps;
        e.trigger_off();
        let mut prev = level;
        let mut out = false;
        for t in 0..500 {
            let y = e.tick();
            c.ok(y <= level && y <= prev + 0.01 && y >= 0.0, "long-release", || format!("round {round}: release tick {t} gives {y:?} after {prev:?}, it started at {level:?}"))?;
            prev = y;
            if e.get_state() == Idle {
                out = true;
                break;
            }
        }
        c.ok(out, "long-release", || format!("round {round}: no end of the release after {steps} sustained ticks"))?;
    }
    // very many notes
    let notes = (steps / 16).max(70_000).min(300_000);
    e.set_attack(0.0);
    e.set_decay(0.0);
    e.set_release(0.0);
    for t in 0..notes {
        e.trigger_on();
        let y = e.tick();
        let st = e.get_state();
        let z = e.tick();
        let st2 = e.get_state();
        e.trigger_off();
        let st3 = e.get_state();
        let w = e.tick();
        let st4 = e.get_state();
        if y != 1.0 || st != Decay || z != level || st2 != Sustain || st3 != Release || w != 0.0 || st4 != Idle {
            return Err(viol("long-notes", format!("note {t}: {y:?} {st:?}, {z:?} {st2:?}, {st3:?}, {w:?} {st4:?} with sustain {level:?}; {}", c.trace())));
        }
    }
    c.obs.evals += notes * 7;
    Ok(())
}

fn tone(c: &mut Ctx) -> (f32, f32) {
    let sr = c.rng.pick(&[8000.0f32, 44_100.0, 48_000.0, 96_000.0]);
    (c.rng.logf(0.01, sr as f64 / 2.0), sr)
}

fn accumulator(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, true);
    let (f, sr) = tone(c);
    c.note(|| format!("{f:?} Hz at {sr:?} for {steps} steps"));
    let (mut a, mut b) = (SoftPhaseAccumulator::new(f, sr), SoftPhaseAccumulator::new(f, sr));
    let want = f as f64 / sr as f64 * 4294967296.0;
    let tol = 1.001 + 3e-7 * want;
    let mut prev = 0u32;
    for t in 0..steps {
        let v = a.next_value();
        let p = b.next_value_normalized() as f64 * 4294967296.0;
        let adv = v.wrapping_sub(prev) as f64;
        if !((adv - want).abs() <= tol) || !((p - v as f64).abs() <= 512.0) {
            return Err(viol("long", format!("{f:?} Hz at {sr:?}: step {t} advanced by {adv} counts (should be {want:?}) to {v}, normalised phase times 2^32 {p:?}")));
        }
        prev = v;
    }
    c.obs.evals += 2 * steps;
    Ok(())
}

fn oscillator(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false);
    let (f, sr) = tone(c);
    let w = c.rng.below(4);
    c.note(|| format!("waveform {w} at {f:?} Hz, rate {sr:?}, {steps} steps"));
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
    let mut acc = SoftPhaseAccumulator::new(f, sr);
    o.set_wave(match w {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    });
    for t in 0..steps {
        let p = acc.next_value_normalized() as f64;
        let y = o.next() as f64;
        let (want, tol) = match w {
            0 => ((p * std::f64::consts::TAU).sin(), 2e-4),
            1 => (if p < 0.5 { -1.0 } else { 1.0 }, 0.0),
            2 => (2.0 * p - 1.0, 1e-6),
            _ => (1.0 - 2.0 * (2.0 * p - 1.0).abs(), 1e-6),
        };
        if !((y - want).abs() <= tol) {
            return Err(viol("long", format!("waveform {w} at {f:?} Hz, rate {sr:?}, step {t}: {y:?} at phase {p:?}, expected {want:?}")));
        }
    }
    c.obs.evals += steps;
    Ok(())
}

fn wavetable(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false);
    let (f, sr) = tone(c);
    let (n, init, buf, steps) = ring(c, k, steps);
    c.note(|| format!("table of {n} at {f:?} Hz, rate {sr:?}, {steps} steps"));
    let mut o = WavetableOscillator::new(buf.view(), SoftPhaseAccumulator::new(f, sr));
    let mut acc = SoftPhaseAccumulator::new(f, sr);
    for t in 0..steps {
        let p = acc.next_value_normalized() as f64;
        let y = o.next() as f64;
        let q = p * n as f64;
        let i = (q as usize).min(n - 1);
        let (u, v) = (init[i] as f64, init[(i + 1) % n] as f64);
        let want = u + (v - u) * (q - i as f64);
        if !((y - want).abs() <= 4e-7 * (1 + n) as f64 * 4.0) {
            return Err(viol("long", format!("table of {n} at {f:?} Hz, rate {sr:?}, step {t}: {y:?} at phase {p:?}, expected {want:?}")));
        }
    }
    c.obs.evals += steps;
    buf.check(c, &init, "wavetable")
}

/// every stateful thing at once, stepped and set over and over: nothing may panic
fn calls(c: &mut Ctx, k: u64) -> R {
    let steps = length(c, k, false).min((1 << 24) + 70_000);
    let (n, init, buf, steps) = ring(c, k, steps);
    let own: Vec<Buf> = (0..3).map(|_| Buf::new(c, &init)).collect();
    let (f, sr) = tone(c);
    c.note(|| format!("{steps} steps of everything over buffers of {n}, {f:?} Hz at {sr:?}"));
    let at = std::cell::Cell::new((0u64, "start"));
    let seed = c.rng.u64();
    let r = c.may_panic(|| {
        let mut g = Rng::new(seed);
        let mut d = DelayLine::new(own[0].view_mut());
        let mut co = Comb::new(own[1].view_mut());
        let mut ap = AllPass::new(own[2].view_mut());
        let mut q: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
        let mut e = AudioRateADSR::new(0.001, 0.001, 0.5, 0.001, 1.0, sr);
        let mut a = SoftPhaseAccumulator::new(f, sr);
        let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
        let mut w = WavetableOscillator::new(buf.view(), SoftPhaseAccumulator::new(f, sr));
        let mut y = 0.0f32;
        for t in 0..steps {
            let x = ((t & 1023) as f32) / 1024.0 - 0.5;
            at.set((t, "delay line"));
            y += d.read() + d.read_wrapped_at(t as isize);
            if t & 15 == 0 {
                y += d.read_lerp_wrapped_at(x) + d.read_lagrange_wrapped_at(x);
            }
            d.write_and_advance(x);
            at.set((t, "comb"));
            y += co.tick(x);
            at.set((t, "all-pass"));
            y += ap.tick(x);
            at.set((t, "biquad"));
            y += q.process(x);
            at.set((t, "envelope"));
            y += e.tick();
            at.set((t, "accumulator"));
            y += a.next_value() as f32 + a.next_value_normalized();
            at.set((t, "oscillator"));
            y += o.next();
            at.set((t, "wavetable"));
            y += w.next();
            at.set((t, "settings"));
            co.set_dampening(0.25);
            co.set_feedback(0.5);
            e.set_sustain(0.5);
            a.set_phase_shift(t as u32);
            a.set_sr_unchecked(sr);
            let _ = a.set_freq(f);
            o.set_wave(match t & 3 {
                0 => Waveform::Sine,
                1 => Waveform::Rectangle,
                2 => Waveform::Sawtooth,
                _ => Waveform::Triangle,
            });
            o.set_freq_unchecked(f);
            w.set_freq_unchecked(f);
            if t & 63 == 0 {
                q.coeffs.lowpass(f.min(0.4 * sr), 0.7, sr);
            }
            // very many notes of different length
            match g.below(8) {
                0 => e.trigger_on(),
                1 => e.trigger_off(),
                2 if t & 127 == 0 => e.reset(),
                _ => {}
            }
            if t & 8191 == 0 {
                d.change_buffer(own[0].view_mut());
                co.change_buffer(own[1].view_mut());
                ap.change_buffer(own[2].view_mut());
            }
        }
        y
    });
    let (t, what) = at.get();
    c.ok(r.is_some(), "panic-late", || format!("step {t} of everything over buffers of {n} ({f:?} Hz at {sr:?}) panicked at the {what}"))?;
    c.obs.evals += 20 * steps;
    Ok(())
}
