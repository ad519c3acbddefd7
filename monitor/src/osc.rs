//! C18-C21: phase accumulator and oscillators.
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            run: c18,
            cases: 180_000,
            systematic: 600,
            miri: 6,
            serial: false,
            rule: "A case runs three accumulators with the same history of frequency, rate and phase shift changes (one read as counts, one normalised, one alternating) and judges every step against freq/sr cycles. Non-trivial: at least one wrap of the cycle; distinct by history.",
            required: &["step", "wrapped", "freq 0", "freq = sr", "nyquist", "tiny freq", "freq changed", "rate changed", "shift changed", "long run", "phase rounds to 1", "shift wraps", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C19",
            run: c19,
            cases: 360_000,
            systematic: 600,
            miri: 6,
            serial: false,
            rule: "A case drives a functional oscillator on a scripted accumulator (or the software accumulator with a twin) through random phases, waveform switches and settings and judges every output. Non-trivial: at least two waveforms and a setting change; distinct by history.",
            required: &["sine", "rectangle", "sawtooth", "triangle", "phase 0", "phase 0.5", "just below 0.5", "just below 1", "scripted", "software", "default waveform", "switched mid-stream", "freq forwarded", "rate forwarded", "shift forwarded", "shift 1.0", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C20",
            run: c20,
            cases: 360_000,
            systematic: 600,
            miri: 8,
            serial: false,
            rule: "A case reads a wavetable oscillator over a guarded table at scripted phases (or from the software accumulator with a twin), judging every sample, and compares the table afterwards. Non-trivial: table of at least 2 elements read at three or more distinct intervals; distinct by table length and phases.",
            required: &["len 1", "len 2", "len 3", "len > 1000", "last interval", "first interval", "on a node", "phase 0", "just below 1", "software", "freq forwarded", "rate forwarded", "shift forwarded", "shift 1.0", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C21",
            run: c21,
            cases: 960_000,
            systematic: 600,
            miri: 10,
            serial: false,
            rule: "A case sets a running accumulator's frequency through the checked setter with zero, negative, acceptable and excessive values under changing rates and phase shifts, and judges the verdict and every following step. Non-trivial: at least one refusal and one acceptance; distinct by history.",
            required: &["zero", "minus zero", "negative", "tiny negative", "minus infinity", "accepted", "exactly nyquist", "just below nyquist", "just above nyquist", "above the sample rate", "infinity", "tiny accepted", "after rate change", "refused mid-run"],
        },
    ]
}

const CYCLE: f64 = 4294967296.0;

/// a step of `d` counts (mod 2^32) is freq/sr of a cycle
fn step_ok(d: u32, freq: f64, sr: f64) -> bool {
    let want = freq / sr * CYCLE;
    let tol = 1.0 + 3e-7 * want;
    let diff = (d as f64 - want.rem_euclid(CYCLE)).abs();
    diff.min(CYCLE - diff) <= tol + 1e-3
}

fn any_rate(c: &mut Ctx) -> f32 {
    match c.rng.below(4) {
        0 => c.rng.pick(&[8000.0f32, 11025.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0, 32768.0, 65536.0, 100.0]),
        1 => c.rng.range(1, 200_000) as f32,
        2 => c.rng.logf(1e-3, 1e9),
        _ => c.rng.logf(100.0, 400_000.0),
    }
}
fn any_freq(c: &mut Ctx, sr: f32) -> f32 {
    match c.rng.below(12) {
        0 => {
            c.cov("freq 0");
            0.0
        }
        1 => {
            c.cov("freq = sr");
            sr
        }
        2 => {
            c.cov("nyquist");
            sr * 0.5
        }
        3 => {
            c.cov("tiny freq");
            sr * c.rng.logf(1e-12, 1e-8)
        }
        4 => sr / c.rng.pick(&[4.0f32, 8.0, 64.0, 256.0, 1024.0, 65536.0]),
        5 => next_down(sr),
        6 => (440.0f32 * c.rng.f(0.1, 10.0)).min(sr),
        7 => (c.rng.range(1, 20_000) as f32).min(sr),
        _ => sr * c.rng.logf(1e-6, 1.0),
    }
}
fn any_shift(c: &mut Ctx) -> u32 {
    match c.rng.below(5) {
        0 => c.rng.pick(&[0u32, 1, u32::MAX, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, 1 << 30, u32::MAX - 127, u32::MAX - 255, u32::MAX - 100]),
        _ => c.rng.u32(),
    }
}

fn c18(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 3000) {
        return crate::long::run(c, k);
    }
    let mut sr = any_rate(c);
    let mut freq = any_freq(c, sr).min(sr);
    let mut shift = 0u32;
    let mut a = SoftPhaseAccumulator::new(freq, sr);
    let mut b = SoftPhaseAccumulator::new(freq, sr);
    let mut d = SoftPhaseAccumulator::new(freq, sr);
    c.note(|| format!("new({freq:?},{sr:?})"));
    c.sigf(sr);
    c.sigf(freq);
    let mut prev = 0u32; // running phase without shift; a new accumulator is at 0
    let mut wraps = 0u64;
    let ops = if c.small() { 8 } else { 24 };
    let long = !c.small() && c.rng.chance(1, 400);
    for op in 0..ops {
        match c.rng.below(7) {
            0 => {
                freq = any_freq(c, sr).min(sr);
                a.set_freq_unchecked(freq);
                b.set_freq_unchecked(freq);
                d.set_freq_unchecked(freq);
                c.note(|| format!("freq {freq:?}"));
                c.sigf(freq);
                c.cov("freq changed");
            }
            1 => {
                sr = any_rate(c);
                // the frequency stays put when the rate changes: keep it within the new rate
                if freq > sr {
                    freq = any_freq(c, sr).min(sr);
                    a.set_freq_unchecked(freq);
                    b.set_freq_unchecked(freq);
                    d.set_freq_unchecked(freq);
                }
                a.set_sr_unchecked(sr);
                b.set_sr_unchecked(sr);
                d.set_sr_unchecked(sr);
                c.note(|| format!("sr {sr:?} (freq {freq:?})"));
                c.sigf(sr);
                c.cov("rate changed");
            }
            2 => {
                shift = any_shift(c);
                a.set_phase_shift(shift);
                b.set_phase_shift(shift);
                d.set_phase_shift(shift);
                c.note(|| format!("shift {shift}"));
                c.sig(shift as u64);
                c.cov("shift changed");
            }
            _ => {}
        }
        let n = if long && op == 5 {
            c.cov("long run");
            1u64 << 21
        } else if c.small() {
            1 + c.rng.below(20)
        } else {
            1 + c.rng.below(200)
        };
        c.sig(n);
        c.note(|| format!("run {n}"));
        for i in 0..n {
            let v = a.next_value();
            let p = b.next_value_normalized();
            let cur = v.wrapping_sub(shift);
            let adv = cur.wrapping_sub(prev);
            c.obs.evals += 2;
            if !step_ok(adv, freq as f64, sr as f64) {
                return Err(viol(
                    "step",
                    format!("step {i} advanced the phase by {adv} counts, freq {freq:?} at {sr:?} needs {:?}; {}", freq as f64 / sr as f64 * CYCLE, c.trace()),
                ));
            }
            if cur < prev {
                wraps += 1;
            }
            if v < cur {
                c.cov("shift wraps");
            }
            if !(p >= 0.0 && p < 1.0) {
                return Err(viol("range", format!("normalised phase {p:?} at count {v}; {}", c.trace())));
            }
            let diff = (p as f64 * CYCLE - v as f64).abs();
            if diff > 512.0 {
                return Err(viol("normalised", format!("normalised phase {p:?} at count {v}: off by {diff} counts; {}", c.trace())));
            }
            if v >= u32::MAX - 127 {
                c.cov("phase rounds to 1");
            }
            // a reader that alternates between both forms sees the same run
            if (i ^ c.case) & 1 == 0 {
                let w = d.next_value();
                c.obs.evals += 1;
                if w != v {
                    return Err(viol("mixed", format!("alternating reads give {w}, counting reads {v} at step {i}; {}", c.trace())));
                }
            } else {
                let q = d.next_value_normalized();
                c.obs.evals += 1;
                if q.to_bits() != p.to_bits() {
                    return Err(viol("mixed", format!("alternating reads give {q:?}, normalised reads {p:?} at step {i}; {}", c.trace())));
                }
            }
            prev = cur;
        }
        c.covn("step", n);
    }
    c.covn("wrapped", wraps);
    if wraps > 0 {
        c.nontrivial();
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// What a scripted accumulator was told and asked.
#[derive(Default)]
struct Tape {
    freq: Option<f32>,
    sr: Option<f32>,
    shift: Option<u32>,
    next: u32,
    advances: u64,
    made: bool,
}
struct Scripted(Rc<RefCell<Tape>>);
impl PhaseAccumulator for Scripted {
    type Object = Scripted;
    fn new(_: f32, _: f32) -> Scripted {
        Scripted(Rc::new(RefCell::new(Tape { made: true, ..Tape::default() })))
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.0.borrow_mut().sr = Some(sr);
    }
    fn set_freq_unchecked(&mut self, freq: f32) {
        self.0.borrow_mut().freq = Some(freq);
    }
    fn set_phase_shift(&mut self, shift: u32) {
        self.0.borrow_mut().shift = Some(shift);
    }
    fn next_value(&mut self) -> u32 {
        let mut t = self.0.borrow_mut();
        t.advances += 1;
        t.next
    }
    fn next_value_normalized(&mut self) -> f32 {
        let mut t = self.0.borrow_mut();
        t.advances += 1;
        (t.next as f64 / CYCLE) as f32
    }
}

/// a phase that counts and f32 both represent exactly
fn exact_phase(c: &mut Ctx) -> u32 {
    let v = match c.rng.below(8) {
        0 => {
            c.cov("phase 0");
            return 0;
        }
        1 => {
            c.cov("phase 0.5");
            return 1 << 31;
        }
        2 => {
            c.cov("just below 0.5");
            return (1u32 << 31) - 256 * (1 + c.rng.below(3) as u32);
        }
        3 => {
            c.cov("just below 1");
            return 0u32.wrapping_sub(256 * (1 + c.rng.below(3) as u32));
        }
        4 => c.rng.pick(&[1u32 << 30, 3 << 30, (1 << 30) - 256, (1 << 30) + 256, (3 << 30) - 256, (3 << 30) + 256, (1 << 31) + 256, 1, 2, 255, 256]),
        5 => c.rng.u32() >> c.rng.below(32),
        _ => c.rng.u32(),
    };
    if v >= 1 << 24 {
        v & !0xff
    } else {
        v
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Sine,
    Rect,
    Saw,
    Tri,
}
fn wave(w: W) -> Waveform {
    match w {
        W::Sine => Waveform::Sine,
        W::Rect => Waveform::Rectangle,
        W::Saw => Waveform::Sawtooth,
        W::Tri => Waveform::Triangle,
    }
}
/// judge one output; `slack` is the uncertainty of the phase in cycles
fn judge(c: &mut Ctx, w: W, p: f64, slack: f64, y: f32) -> R {
    c.obs.evals += 1;
    let yd = y as f64;
    let (want, tol) = match w {
        W::Sine => {
            c.cov("sine");
            ((p * std::f64::consts::TAU).sin(), 2e-4 + 7.0 * slack)
        }
        W::Rect => {
            c.cov("rectangle");
            if slack > 0.0 && ((p - 0.5).abs() <= slack || p <= slack || p >= 1.0 - slack) {
                if yd.abs() == 1.0 {
                    return Ok(());
                }
            }
            (if p < 0.5 { -1.0 } else { 1.0 }, 0.0)
        }
        W::Saw => {
            c.cov("sawtooth");
            (2.0 * p - 1.0, 1e-6 + 2.0 * slack)
        }
        W::Tri => {
            c.cov("triangle");
            (1.0 - 2.0 * (2.0 * p - 1.0).abs(), 1e-6 + 4.0 * slack)
        }
    };
    if !((yd - want).abs() <= tol) {
        return Err(viol("waveform", format!("{w:?} at phase {p:?} gave {y:?}, expected {want:?} (+-{tol:e}); {}", c.trace())));
    }
    let lim = if w == W::Sine { 1.0001 } else { 1.0 };
    if !(yd.abs() <= lim) {
        return Err(viol("range", format!("{w:?} at phase {p:?} gave {y:?}; {}", c.trace())));
    }
    Ok(())
}
fn shift_counts(s: f32) -> f64 {
    s as f64 * CYCLE
}
fn shift_ok(got: u32, s: f32) -> bool {
    let d = (got as f64 - shift_counts(s)).abs();
    d.min(CYCLE - d) <= 1024.0
}
fn any_shift_f(c: &mut Ctx) -> f32 {
    match c.rng.below(5) {
        0 => {
            c.cov("shift 1.0");
            1.0
        }
        1 => c.rng.pick(&[0.0f32, 0.5, 0.25, 0.75, 1e-9, 0.99999994]),
        _ => c.rng.f(0.0, 1.0),
    }
}

fn c19(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 3000) {
        return crate::long::run(c, k);
    }
    if c.rng.chance(1, 3) {
        return c19_soft(c);
    }
    c.cov("scripted");
    let tape = Rc::new(RefCell::new(Tape::default()));
    let mut o = FunctionalOscillator::new(Scripted(tape.clone()));
    let mut w = W::Sine;
    let mut told = false;
    let (mut freq, mut sr, mut sh): (Option<f32>, Option<f32>, Option<f32>) = (None, None, None);
    let mut used = [false; 4];
    let mut set = false;
    let n = if c.small() { 40 } else { 400 };
    let mut asked = 0u64;
    for i in 0..n {
        match c.rng.below(12) {
            0 => {
                w = c.rng.pick(&[W::Sine, W::Rect, W::Saw, W::Tri]);
                o.set_wave(wave(w));
                told = true;
                c.note(|| format!("wave {w:?}"));
                if i > 0 {
                    c.cov("switched mid-stream");
                }
            }
            1 => {
                let f = match c.rng.below(3) {
                    0 => c.rng.finite(),
                    _ => c.rng.f(0.0, 24000.0),
                };
                o.set_freq_unchecked(f);
                freq = Some(f);
                set = true;
                c.note(|| format!("freq {f:?}"));
            }
            2 => {
                let f = any_rate(c);
                o.set_sr_unchecked(f);
                sr = Some(f);
                set = true;
                c.note(|| format!("sr {f:?}"));
            }
            3 => {
                let s = any_shift_f(c);
                o.set_phase_shift_unchecked(s);
                sh = Some(s);
                set = true;
                c.note(|| format!("shift {s:?}"));
            }
            _ => {}
        }
        let v = exact_phase(c);
        c.sig(v as u64);
        tape.borrow_mut().next = v;
        let y = o.next();
        asked += 1;
        let (adv, tf, ts, tsh) = {
            let t = tape.borrow();
            (t.advances, t.freq, t.sr, t.shift)
        };
        c.obs.evals += 4;
        if adv != asked {
            return Err(viol("advance", format!("{adv} accumulator steps after {asked} samples ({w:?}); {}", c.trace())));
        }
        if tf.map(f32::to_bits) != freq.map(f32::to_bits) {
            return Err(viol("freq", format!("accumulator frequency is {tf:?}, set {freq:?}; {}", c.trace())));
        }
        if ts.map(f32::to_bits) != sr.map(f32::to_bits) {
            return Err(viol("rate", format!("accumulator rate is {ts:?}, set {sr:?}; {}", c.trace())));
        }
        match (tsh, sh) {
            (None, None) => {}
            (Some(g), Some(s)) if shift_ok(g, s) => c.cov("shift forwarded"),
            _ => return Err(viol("shift", format!("accumulator shift is {tsh:?} counts, set {sh:?} cycles; {}", c.trace()))),
        }
        if freq.is_some() {
            c.cov("freq forwarded");
        }
        if sr.is_some() {
            c.cov("rate forwarded");
        }
        if !told {
            c.cov("default waveform");
        }
        used[w as usize] = true;
        judge(c, w, v as f64 / CYCLE, 0.0, y)?;
    }
    c.ok(!tape.borrow().made, "harness", || "oscillator made its own accumulator".into())?;
    if used.iter().filter(|u| **u).count() >= 2 && set {
        c.nontrivial();
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

fn c19_soft(c: &mut Ctx) -> R {
    c.cov("software");
    let sr0 = any_rate(c);
    let f0 = any_freq(c, sr0).min(sr0);
    let mut twin = SoftPhaseAccumulator::new(f0, sr0);
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f0, sr0));
    c.note(|| format!("software new({f0:?},{sr0:?})"));
    c.sigf(f0);
    c.sigf(sr0);
    let mut w = W::Sine;
    let mut slack = 2.0f64.powi(-23);
    let mut sr = sr0;
    let mut used = [false; 4];
    let mut set = false;
    let n = if c.small() { 40 } else { 400 };
    for i in 0..n {
        match c.rng.below(24) {
            0 | 1 => {
                w = c.rng.pick(&[W::Sine, W::Rect, W::Saw, W::Tri]);
                o.set_wave(wave(w));
                c.note(|| format!("wave {w:?}"));
                if i > 0 {
                    c.cov("switched mid-stream");
                }
            }
            2 => {
                let f = any_freq(c, sr).min(sr);
                o.set_freq_unchecked(f);
                twin.set_freq_unchecked(f);
                set = true;
                c.note(|| format!("freq {f:?}"));
            }
            3 => {
                sr = any_rate(c);
                o.set_sr_unchecked(sr);
                twin.set_sr_unchecked(sr);
                let f = any_freq(c, sr).min(sr);
                o.set_freq_unchecked(f);
                twin.set_freq_unchecked(f);
                set = true;
                c.note(|| format!("sr {sr:?} freq {f:?}"));
            }
            4 => {
                let s = any_shift_f(c);
                o.set_phase_shift_unchecked(s);
                twin.set_phase_shift(shift_counts(s).min(u32::MAX as f64) as u32);
                slack = 2.0f64.powi(-23) + 1024.0 / CYCLE;
                set = true;
                c.note(|| format!("shift {s:?}"));
            }
            _ => {}
        }
        let v = twin.next_value();
        let y = o.next();
        c.sig(v as u64);
        used[w as usize] = true;
        // phases that close to the wrap-around may be on either side of it
        let p = v as f64 / CYCLE;
        if w == W::Saw && (p < slack || p > 1.0 - slack) {
            c.ok(y.abs() <= 1.0 && y.abs() >= 1.0 - 4.0 * slack as f32 - 1e-6, "waveform", || format!("Saw at phase {p:?} gave {y:?}"))?;
        } else {
            judge(c, w, p, slack, y)?;
        }
    }
    if used.iter().filter(|u| **u).count() >= 2 && set {
        c.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn table_len(c: &mut Ctx) -> usize {
    let m = if c.small() { 24 } else { 5000 };
    let l = match c.rng.below(8) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 if !c.small() && c.rng.chance(1, 400) => 60_000 + c.rng.usize(100_000),
        _ => c.rng.len(m),
    };
    match l {
        1 => c.cov("len 1"),
        2 => c.cov("len 2"),
        3 => c.cov("len 3"),
        1001.. => c.cov("len > 1000"),
        _ => {}
    }
    l
}

/// circular linear interpolation, with the tolerance a rounded position deserves
fn table_read(t: &[f32], p: f64, slack: f64) -> (f64, f64) {
    let n = t.len();
    let pos = p * n as f64;
    let i = (pos.floor() as usize).min(n - 1);
    let fr = pos - i as f64;
    let g = |k: usize| t[k % n] as f64;
    let v = g(i) * (1.0 - fr) + g(i + 1) * fr;
    let slope = (g(i + 1) - g(i)).abs().max((g(i + 2) - g(i + 1)).abs()).max((g(i) - g(i + n - 1)).abs());
    let size = g(i).abs().max(g(i + 1).abs()).max(g(i + 2).abs()).max(g(i + n - 1).abs());
    let ulp = pos.max(1.0) * EPS + n as f64 * slack;
    (v, slope * ulp + size * 4.0 * EPS + 1e-37)
}

fn c20(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 3000) {
        return crate::long::run(c, k);
    }
    let n = table_len(c);
    let kind = c.rng.below(4);
    let init: Vec<f32> = (0..n)
        .map(|i| match kind {
            0 => (i as f32 / n as f32 * std::f32::consts::TAU).sin(),
            1 => c.rng.sample(),
            2 => c.rng.f(-1.0, 1.0),
            _ => (i as f32 + 1.0) * 1.5,
        })
        .collect();
    let buf = Buf::new(c, &init);
    let soft = c.rng.chance(1, 4);
    c.sig(n as u64);
    c.note(|| format!("table of {n}, kind {kind}"));
    let reads = if c.small() { 30 } else { 250 };
    let mut cells = std::collections::HashSet::new();
    if soft {
        c.cov("software");
        let sr0 = any_rate(c);
        let f0 = any_freq(c, sr0).min(sr0);
        let mut sr = sr0;
        let mut twin = SoftPhaseAccumulator::new(f0, sr0);
        let mut o = WavetableOscillator::new(buf.view(), SoftPhaseAccumulator::new(f0, sr0));
        c.note(|| format!("software new({f0:?},{sr0:?})"));
        let mut slack = 2.0f64.powi(-23);
        for _ in 0..reads {
            match c.rng.below(30) {
                0 => {
                    let f = any_freq(c, sr).min(sr);
                    o.set_freq_unchecked(f);
                    twin.set_freq_unchecked(f);
                    c.note(|| format!("freq {f:?}"));
                }
                1 => {
                    sr = any_rate(c);
                    o.set_sr_unchecked(sr);
                    twin.set_sr_unchecked(sr);
                    let f = any_freq(c, sr).min(sr);
                    o.set_freq_unchecked(f);
                    twin.set_freq_unchecked(f);
                    c.note(|| format!("sr {sr:?} freq {f:?}"));
                }
                2 => {
                    let s = any_shift_f(c);
                    o.set_phase_shift_unchecked(s);
                    twin.set_phase_shift(shift_counts(s).min(u32::MAX as f64) as u32);
                    slack = 2.0f64.powi(-23) + 1024.0 / CYCLE;
                    c.note(|| format!("shift {s:?}"));
                }
                _ => {}
            }
            let v = twin.next_value();
            let y = o.next();
            c.sig(v as u64);
            let p = v as f64 / CYCLE;
            cells.insert((p * n as f64) as usize);
            let (want, tol) = table_read(&init, p, slack);
            c.near(y as f64, want, tol, "read", || format!("table of {n} at phase {p:?} (count {v})"))?;
        }
    } else {
        let tape = Rc::new(RefCell::new(Tape::default()));
        let mut o = WavetableOscillator::new(buf.view(), Scripted(tape.clone()));
        let (mut freq, mut sr, mut sh): (Option<f32>, Option<f32>, Option<f32>) = (None, None, None);
        for i in 0..reads {
            match c.rng.below(12) {
                1 => {
                    let f = c.rng.f(0.0, 24000.0);
                    o.set_freq_unchecked(f);
                    freq = Some(f);
                }
                2 => {
                    let f = any_rate(c);
                    o.set_sr_unchecked(f);
                    sr = Some(f);
                }
                3 => {
                    let s = any_shift_f(c);
                    o.set_phase_shift_unchecked(s);
                    sh = Some(s);
                }
                _ => {}
            }
            let v = match c.rng.below(4) {
                0 => {
                    // exactly on a node, or next to it
                    let k = match c.rng.below(3) {
                        0 => n - 1,
                        1 => 0,
                        _ => c.rng.usize(n),
                    };
                    let base = (k as f64 / n as f64 * CYCLE).round() as u64 as u32;
                    let v = base.wrapping_add(c.rng.pick(&[0u32, 0, 256, u32::MAX - 255]));
                    c.cov("on a node");
                    if v >= 1 << 24 {
                        v & !0xff
                    } else {
                        v
                    }
                }
                _ => exact_phase(c),
            };
            c.sig(v as u64);
            let p = v as f64 / CYCLE;
            let pos = p * n as f64;
            if pos >= (n - 1) as f64 {
                c.cov("last interval");
            }
            if pos < 1.0 {
                c.cov("first interval");
            }
            tape.borrow_mut().next = v;
            let y = o.next();
            cells.insert(pos as usize);
            let (want, tol) = table_read(&init, p, 0.0);
            let (adv, tf, ts, tsh) = {
                let t = tape.borrow();
                (t.advances, t.freq, t.sr, t.shift)
            };
            c.obs.evals += 4;
            c.near(y as f64, want, tol, "read", || format!("table of {n} (kind {kind}) at phase {p:?}, position {pos:?}"))?;
            if adv != i as u64 + 1 {
                return Err(viol("advance", format!("{adv} accumulator steps after {} samples", i + 1)));
            }
            if tf.map(f32::to_bits) != freq.map(f32::to_bits) {
                return Err(viol("freq", format!("accumulator frequency is {tf:?}, set {freq:?}")));
            }
            if ts.map(f32::to_bits) != sr.map(f32::to_bits) {
                return Err(viol("rate", format!("accumulator rate is {ts:?}, set {sr:?}")));
            }
            match (tsh, sh) {
                (None, None) => {}
                (Some(g), Some(s)) if shift_ok(g, s) => c.cov("shift forwarded"),
                _ => return Err(viol("shift", format!("accumulator shift is {tsh:?} counts, set {sh:?} cycles"))),
            }
            if freq.is_some() {
                c.cov("freq forwarded");
            }
            if sr.is_some() {
                c.cov("rate forwarded");
            }
        }
    }
    buf.check(c, &init, "wavetable after reading")?;
    if n >= 2 && cells.len() >= 3.min(n) {
        c.nontrivial();
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(PartialEq, Clone, Copy, Debug)]
enum V {
    Accept,
    Zero,
    Neg,
    Big,
}
fn verdict(r: Result<(), FrequencyError>) -> V {
    match r {
        Ok(()) => V::Accept,
        Err(FrequencyError::Zero) => V::Zero,
        Err(FrequencyError::Negative) => V::Neg,
        Err(FrequencyError::BiggerThanNyquist) => V::Big,
    }
}

fn c21(c: &mut Ctx) -> R {
    let mut sr = any_rate(c);
    let mut freq = (any_freq(c, sr) * 0.5).min(sr * 0.5);
    let mut a = SoftPhaseAccumulator::new(freq, sr);
    c.note(|| format!("new({freq:?},{sr:?})"));
    let mut prev = 0u32;
    let mut shift = 0u32;
    let (mut acc, mut refused, mut rate_changed) = (0, 0, false);
    let ops = if c.small() { 20 } else { 60 };
    for k in 0..ops {
        match c.rng.below(10) {
            0 => {
                let nsr = any_rate(c);
                sr = nsr;
                a.set_sr_unchecked(sr);
                rate_changed = true;
                c.note(|| format!("sr {sr:?}"));
            }
            1 => {
                shift = any_shift(c);
                a.set_phase_shift(shift);
            }
            _ => {
                let ny = sr as f64 * 0.5;
                let f = match c.rng.below(15) {
                    14 => sr * 0.5,
                    0 => 0.0f32,
                    1 => -0.0,
                    2 => -c.rng.logf(1e-6, 1e6),
                    3 => c.rng.pick(&[-1e-45f32, -1e-38, -f32::MAX, -1.0]),
                    4 => f32::NEG_INFINITY,
                    5 => f32::INFINITY,
                    6 => f32::MAX,
                    7 => (ny * (1.0 - c.rng.logf(2e-6, 1e-3) as f64)) as f32,
                    8 => (ny * (1.0 + c.rng.logf(2e-6, 1e-3) as f64)) as f32,
                    9 => sr * c.rng.f(1.0, 4.0),
                    10 => c.rng.pick(&[1e-45f32, 1e-38, 1e-20, 1e-6]),
                    11 => c.rng.logf(1e-6, 1e8),
                    _ => (ny * c.rng.unit()) as f32,
                };
                if f as f64 == ny {
                    c.cov("exactly nyquist");
                } else if (f as f64 - ny).abs() <= 1e-6 * ny {
                    continue;
                }
                let want = if f == 0.0 {
                    V::Zero
                } else if f < 0.0 {
                    V::Neg
                } else if f as f64 > ny {
                    V::Big
                } else {
                    V::Accept
                };
                c.note(|| format!("set_freq {f:?} at {sr:?}"));
                c.sigf(f);
                let got = verdict(a.set_freq(f));
                c.ok(got == want, "verdict", || format!("set_freq({f:?}) at rate {sr:?} gave {got:?}, expected {want:?}"))?;
                match want {
                    V::Accept => {
                        freq = f;
                        acc += 1;
                        c.cov("accepted");
                        if f as f64 > ny * 0.998 {
                            c.cov("just below nyquist");
                        }
                        if f < 1e-5 {
                            c.cov("tiny accepted");
                        }
                        if rate_changed {
                            c.cov("after rate change");
                        }
                    }
                    V::Zero => c.cov(if f.is_sign_negative() { "minus zero" } else { "zero" }),
                    V::Neg => c.cov(if f == f32::NEG_INFINITY {
                        "minus infinity"
                    } else if f > -1e-30 {
                        "tiny negative"
                    } else {
                        "negative"
                    }),
                    V::Big => c.cov(if f == f32::INFINITY {
                        "infinity"
                    } else if (f as f64) < ny * 1.002 {
                        "just above nyquist"
                    } else if f > sr {
                        "above the sample rate"
                    } else {
                        "negative"
                    }),
                }
                if want != V::Accept {
                    refused += 1;
                    if k > 0 {
                        c.cov("refused mid-run");
                    }
                }
            }
        }
        // the rate may have dropped below the frequency; steps then alias and are not specified
        let judged = freq as f64 <= sr as f64;
        for _ in 0..1 + c.rng.below(6) {
            let v = a.next_value();
            c.obs.evals += 1;
            let cur = v.wrapping_sub(shift);
            if judged && !step_ok(cur.wrapping_sub(prev), freq as f64, sr as f64) {
                return Err(viol(
                    "step",
                    format!("step of {} counts, running frequency {freq:?} at {sr:?} needs {:?}; {}", cur.wrapping_sub(prev), freq as f64 / sr as f64 * CYCLE, c.trace()),
                ));
            }
            prev = cur;
        }
    }
    if acc > 0 && refused > 0 {
        c.nontrivial();
    }
    let tr = c.trace();
    c.sample(|| tr);
    Ok(())
}
