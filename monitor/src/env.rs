//! C14-C17: the ADSR envelope generator.
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};
use EnvelopeState::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            run: c14,
            cases: 300_000,
            systematic: 400,
            miri: 6,
            serial: false,
            rule: "A case drives an envelope with a random history of gates, resets, ticks and parameter changes (ordinary and extreme values), judging every tick, then requires the gate to reach sustain and its end to reach idle within the stage times. Non-trivial: the history visited at least three stages; distinct by parameters and history.",
            required: &["tick", "zero time", "tiny time", "huge time", "slope clamped", "sustain clamped", "gate led to sustain", "release led to idle", "from idle", "from attack", "from decay", "from sustain", "from release", "long stage", "rate changed", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C15",
            run: c15,
            cases: 300_000,
            systematic: 400,
            miri: 6,
            serial: false,
            rule: "A case drives an envelope with a random history of gates, resets, ticks and parameter changes and compares the stage after every call, and the value at every stage change, with the ADSR automaton. Non-trivial: at least five stage changes; distinct by history.",
            required: &["idle->attack", "attack->attack", "decay->attack", "sustain->attack", "release->attack", "attack->release", "decay->release", "sustain->release", "off ignored idle", "off ignored release", "attack->decay", "decay->sustain", "release->idle", "reset attack", "reset decay", "reset sustain", "reset release", "setter in attack", "setter in decay", "setter in sustain", "setter in release", "setter in idle", "idle tick", "sustain tick", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C16",
            run: c16,
            cases: 300_000,
            systematic: 3_000,
            miri: 6,
            serial: false,
            rule: "A case runs one full gate cycle (attack, decay, sustain, release) of an envelope with given times, sustain, slope and sample rate, and judges the duration and every level of each stage. Non-trivial: every cycle; distinct by parameters.",
            required: &["attack timed", "decay timed", "release timed", "sub-sample time", "one-sample time", "two second stage", "slope 1/20", "slope 20", "sustain 0", "sustain 1", "curve point", "rate 192k"],
        },
        Prop {
            id: "C17",
            run: c17,
            cases: 300_000,
            systematic: 400,
            miri: 6,
            serial: false,
            rule: "A case drives an envelope with gates at random points and parameter changes in mid-stage, tracking the progress of every stage in double precision, and judges each level against the curve the current parameters prescribe, the release start level and the retrigger bound. Non-trivial: at least one early release or mid-stage change; distinct by history.",
            required: &["release from attack", "release from decay", "release from sustain", "release after sustain change", "retrigger from decay", "retrigger from sustain", "retrigger from release", "peak in time", "time changed in stage", "sustain changed in decay", "slope changed in stage", "rate changed then time set", "slope clamped in constructor", "slope clamped by setter", "sustain clamped", "curve point", "rate changed alone", "marathon", "marathon beyond 2^24"],
        },
    ]
}

/// reference parameters
#[derive(Clone, Copy)]
struct Par {
    /// progress per tick of attack, decay, release
    inc: [f64; 3],
    sus: f64,
    slope: f64,
    sr: f64,
}
fn inc_of(t: f32, sr: f64) -> f64 {
    // at most two seconds per stage
    let n = (t as f64).min(2.0) * sr;
    if n <= 0.0 {
        1e300
    } else {
        1.0 / n
    }
}
fn slope_of(s: f32) -> f64 {
    (s as f64).clamp(1.0 / 20.0, 20.0)
}

struct Rig {
    e: AudioRateADSR,
    p: Par,
}

impl Rig {
    fn new(a: f32, d: f32, s: f32, r: f32, slope: f32, sr: f32) -> Rig {
        let srd = sr as f64;
        Rig {
            e: AudioRateADSR::new(a, d, s, r, slope, sr),
            p: Par { inc: [inc_of(a, srd), inc_of(d, srd), inc_of(r, srd)], sus: (s as f64).clamp(0.0, 1.0), slope: slope_of(slope), sr: srd },
        }
    }
    fn set_time(&mut self, k: usize, t: f32) {
        match k {
            0 => self.e.set_attack(t),
            1 => self.e.set_decay(t),
            _ => self.e.set_release(t),
        }
        self.p.inc[k] = inc_of(t, self.p.sr);
    }
    fn set_sustain(&mut self, s: f32) {
        self.e.set_sustain(s);
        self.p.sus = (s as f64).clamp(0.0, 1.0);
    }
    fn set_slope(&mut self, s: f32) {
        self.e.set_slope(s);
        self.p.slope = slope_of(s);
    }
    fn set_sr(&mut self, sr: f32) {
        self.e.set_sr(sr);
        self.p.sr = sr as f64;
    }
    /// most ticks a stage may take
    fn bound(&self, k: usize) -> u64 {
        (1.02 / self.p.inc[k]).ceil() as u64 + 3
    }
}

fn any_time(c: &mut Ctx, sr: f32) -> f32 {
    match c.rng.below(12) {
        0 => {
            c.cov("zero time");
            0.0
        }
        1 => {
            c.cov("tiny time");
            c.rng.pick(&[1e-45f32, 1e-38, 1e-30, 1e-12, 1e-7])
        }
        2 => {
            c.cov("huge time");
            c.rng.pick(&[2.0f32, 2.5, 10.0, 1e6, 1e30, f32::MAX, f32::INFINITY])
        }
        3 => 1.0 / sr * c.rng.f(0.0, 3.0),
        4 | 5 => c.rng.f(0.0, 40.0) / sr,
        _ => c.rng.logf(1.0, 500.0) / sr,
    }
}
fn any_sustain(c: &mut Ctx) -> f32 {
    match c.rng.below(8) {
        0 => {
            c.cov("sustain clamped");
            c.rng.pick(&[-1.0f32, 2.0, 1e30, -1e30, f32::MAX, f32::MIN, 1.0000001, -1e-45])
        }
        1 => c.rng.pick(&[0.0f32, 1.0, -0.0, 1e-45, 1e-9, 1e-7, 0.99999994, 0.9999]),
        _ => c.rng.f(0.0, 1.0),
    }
}
fn any_slope(c: &mut Ctx) -> f32 {
    match c.rng.below(8) {
        0 => {
            c.cov("slope clamped");
            c.rng.pick(&[0.0f32, -1.0, -0.0, 1e-30, 100.0, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, 20.5, 0.04])
        }
        1 => c.rng.pick(&[1.0f32, 0.05, 20.0, 0.5, 2.0]),
        _ => c.rng.logf(0.05, 20.0),
    }
}
fn any_sr(c: &mut Ctx) -> f32 {
    match c.rng.below(10) {
        0 => c.rng.pick(&[8000.0f32, 44100.0, 48000.0, 96000.0, 192000.0]),
        1 => c.rng.logf(100.0, 192000.0),
        2 => 100.0,
        _ => c.rng.logf(100.0, 2000.0),
    }
}

const CUTOFF: u64 = 1_000_000;

fn note_state(s: EnvelopeState) -> usize {
    match s {
        Idle => 0,
        Attack => 1,
        Decay => 2,
        Sustain => 3,
        Release => 4,
    }
}

fn c14(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 5000) {
        return crate::long::run(c, k);
    }
    let sr = any_sr(c);
    let (a, d, s, r, sl) = (any_time(c, sr), any_time(c, sr), any_sustain(c), any_time(c, sr), any_slope(c));
    let mut g = Rig::new(a, d, s, r, sl, sr);
    for v in [a, d, s, r, sl, sr] {
        c.sigf(v);
    }
    c.note(|| format!("new({a:?},{d:?},{s:?},{r:?},{sl:?},{sr:?})"));
    let mut seen = [false; 5];
    let ops = if c.small() { 20 } else { 60 };
    for _ in 0..ops {
        match c.rng.below(16) {
            0 | 1 => {
                c.note(|| "on".into());
                g.e.trigger_on()
            }
            2 => {
                c.note(|| "off".into());
                g.e.trigger_off()
            }
            3 => {
                if c.rng.chance(1, 4) {
                    c.note(|| "reset".into());
                    g.e.reset()
                }
            }
            4 => {
                let (k, t) = (c.rng.usize(3), any_time(c, sr));
                c.note(|| format!("time{k}={t:?}"));
                c.sigf(t);
                g.set_time(k, t);
            }
            5 => {
                let s = any_sustain(c);
                c.note(|| format!("sustain={s:?}"));
                c.sigf(s);
                g.set_sustain(s);
            }
            6 => {
                let s = any_slope(c);
                c.note(|| format!("slope={s:?}"));
                c.sigf(s);
                g.set_slope(s);
            }
            7 => {
                if c.rng.chance(1, 3) {
                    let s = any_sr(c);
                    c.note(|| format!("sr={s:?}"));
                    c.cov("rate changed");
                    g.set_sr(s);
                }
            }
            _ => {
                let n = match c.rng.below(5) {
                    0 => 1,
                    1 => 300,
                    _ => 1 + c.rng.usize(50),
                };
                let n = if c.small() { n.min(12) } else { n };
                c.sig(n as u64);
                c.note(|| format!("tick x{n}"));
                for _ in 0..n {
                    let y = g.e.tick();
                    c.obs.evals += 1;
                    if !(y >= 0.0 && y <= 1.0) {
                        return Err(viol("level", format!("tick returned {y:?} in {:?}; {}", g.e.get_state(), c.trace())));
                    }
                    seen[note_state(g.e.get_state())] = true;
                }
                c.covn("tick", n as u64);
            }
        }
    }
    if seen.iter().filter(|x| **x).count() >= 3 {
        c.nontrivial();
    }
    // liveness from wherever this history ended
    let st = g.e.get_state();
    let from = match st {
        Idle => "from idle",
        Attack => "from attack",
        Decay => "from decay",
        Sustain => "from sustain",
        Release => "from release",
    };
    let up = g.bound(0) + g.bound(1);
    let down = g.bound(2);
    let budget = if c.small() { 1500 } else { CUTOFF };
    if up + down > budget || (up + down > 60_000 && !c.rng.chance(1, 20)) {
        return Ok(());
    }
    if up > 30_000 {
        c.cov("long stage");
    }
    c.cov(from);
    let skip_on = c.rng.chance(1, 4);
    if !skip_on {
        g.e.trigger_on();
        let mut n = 0u64;
        while g.e.get_state() != Sustain {
            let y = g.e.tick();
            c.obs.evals += 1;
            if !(y >= 0.0 && y <= 1.0) {
                return Err(viol("level", format!("tick returned {y:?} under a held gate; {}", c.trace())));
            }
            n += 1;
            if n > up {
                return Err(viol("stuck", format!("gate held for {n} ticks {from}: still {:?} (stage times allow {up}); {}", g.e.get_state(), c.trace())));
            }
        }
        c.cov("gate led to sustain");
    }
    if c.rng.chance(1, 2) && !skip_on {
        g.set_sustain(any_sustain(c));
    }
    g.e.trigger_off();
    let mut n = 0u64;
    while g.e.get_state() != Idle {
        let y = g.e.tick();
        c.obs.evals += 1;
        if !(y >= 0.0 && y <= 1.0) {
            return Err(viol("level", format!("tick returned {y:?} after the gate; {}", c.trace())));
        }
        n += 1;
        if n > down {
            return Err(viol("stuck", format!("gate off for {n} ticks: still {:?} (release time allows {down}); {}", g.e.get_state(), c.trace())));
        }
    }
    c.cov("release led to idle");
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn short_time(c: &mut Ctx, sr: f32) -> f32 {
    match c.rng.below(8) {
        0 => any_time(c, sr),
        1 => 0.0,
        _ => c.rng.logf(1.0, 40.0) / sr,
    }
}

fn c15(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 5000) {
        return crate::long::run(c, k);
    }
    let sr = any_sr(c);
    let (a, d, s, r, sl) = (short_time(c, sr), short_time(c, sr), any_sustain(c), short_time(c, sr), any_slope(c));
    let mut g = Rig::new(a, d, s, r, sl, sr);
    for v in [a, d, s, r, sl, sr] {
        c.sigf(v);
    }
    c.note(|| format!("new({a:?},{d:?},{s:?},{r:?},{sl:?},{sr:?})"));
    let mut m = Idle;
    let mut sus = s.clamp(0.0, 1.0);
    let st = g.e.get_state();
    c.ok(st == Idle, "initial", || format!("a new envelope is {st:?}"))?;
    let mut changes = 0;
    let ops = if c.small() { 25 } else { 120 };
    for _ in 0..ops {
        let before = m;
        let op = c.rng.below(14);
        c.sig(op);
        let what: String;
        match op {
            0 | 1 => {
                g.e.trigger_on();
                m = Attack;
                what = "gate on".into();
                c.cov(match before {
                    Idle => "idle->attack",
                    Attack => "attack->attack",
                    Decay => "decay->attack",
                    Sustain => "sustain->attack",
                    Release => "release->attack",
                });
            }
            2 => {
                g.e.trigger_off();
                what = "gate off".into();
                match before {
                    Idle => c.cov("off ignored idle"),
                    Release => c.cov("off ignored release"),
                    Attack => c.cov("attack->release"),
                    Decay => c.cov("decay->release"),
                    Sustain => c.cov("sustain->release"),
                }
                if !matches!(before, Idle | Release) {
                    m = Release;
                }
            }
            3 => {
                if !c.rng.chance(1, 3) {
                    continue;
                }
                g.e.reset();
                m = Idle;
                what = "reset".into();
                match before {
                    Attack => c.cov("reset attack"),
                    Decay => c.cov("reset decay"),
                    Sustain => c.cov("reset sustain"),
                    Release => c.cov("reset release"),
                    Idle => {}
                }
            }
            4 | 5 => {
                match c.rng.below(6) {
                    k @ 0..=2 => {
                        let t = short_time(c, sr);
                        g.set_time(k as usize, t);
                        what = format!("set time {k} to {t:?}");
                    }
                    3 => {
                        let s = any_sustain(c);
                        g.set_sustain(s);
                        sus = s.clamp(0.0, 1.0);
                        what = format!("set sustain to {s:?}");
                    }
                    4 => {
                        let s = any_slope(c);
                        g.set_slope(s);
                        what = format!("set slope to {s:?}");
                    }
                    _ => {
                        let s = any_sr(c);
                        g.set_sr(s);
                        what = format!("set rate to {s:?}");
                    }
                }
                c.cov(match before {
                    Idle => "setter in idle",
                    Attack => "setter in attack",
                    Decay => "setter in decay",
                    Sustain => "setter in sustain",
                    Release => "setter in release",
                });
            }
            _ => {
                let n = match c.rng.below(6) {
                    0 => 1,
                    1 => {
                        if c.small() {
                            20
                        } else {
                            120
                        }
                    }
                    _ => 1 + c.rng.usize(if c.small() { 8 } else { 30 }),
                };
                c.sig(n as u64);
                c.note(|| format!("tick x{n}"));
                for _ in 0..n {
                    let y = g.e.tick();
                    let st = g.e.get_state();
                    c.obs.evals += 1;
                    let want = match m {
                        Idle => {
                            c.cov("idle tick");
                            if y != 0.0 {
                                return Err(viol("idle-level", format!("idle tick returned {y:?}; {}", c.trace())));
                            }
                            Idle
                        }
                        Attack => {
                            if y == 1.0 {
                                Decay
                            } else {
                                Attack
                            }
                        }
                        Decay => {
                            if y == sus {
                                Sustain
                            } else {
                                Decay
                            }
                        }
                        Sustain => {
                            c.cov("sustain tick");
                            if y != sus {
                                return Err(viol("sustain-level", format!("sustain tick returned {y:?}, sustain level is {sus:?}; {}", c.trace())));
                            }
                            Sustain
                        }
                        Release => {
                            if y == 0.0 {
                                Idle
                            } else {
                                Release
                            }
                        }
                    };
                    if st != want {
                        return Err(viol("tick-stage", format!("tick in {m:?} returned {y:?} (sustain {sus:?}) and went to {st:?}, expected {want:?}; {}", c.trace())));
                    }
                    if want != m {
                        changes += 1;
                        c.cov(match want {
                            Decay => "attack->decay",
                            Sustain => "decay->sustain",
                            _ => "release->idle",
                        });
                    }
                    m = want;
                }
                continue;
            }
        }
        c.note(|| what.clone());
        let st = g.e.get_state();
        c.ok(st == m, "stage", || format!("{what} in {before:?} led to {st:?}, expected {m:?}"))?;
        if st != before {
            changes += 1;
        }
    }
    c.max("most stage changes in a history", changes as f64);
    if changes >= 5 {
        c.nontrivial();
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// powers as the crate approximates them: interval for p^e, progress known to 1.5%
fn pow_interval(p: f64, e: f64) -> (f64, f64) {
    if p >= 1.0 {
        return (0.0f64.max((-e * 0.02 - 0.01f64).exp()), 1.0);
    }
    let l = e * p.ln();
    let tol = e * (0.13 + 0.015) + 0.01;
    ((l - tol).exp(), (l + tol).exp().min(1.0))
}

fn judge_curve(c: &mut Ctx, stage: EnvelopeState, p: f64, slope: f64, from: f64, to: f64, y: f64, tr: &dyn Fn() -> String) -> R {
    c.obs.evals += 1;
    let (lo, hi) = match stage {
        Attack => pow_interval(p, 1.0 / slope),
        _ => {
            let (a, b) = pow_interval(p, slope);
            (to + (from - to) * (1.0 - b), to + (from - to) * (1.0 - a))
        }
    };
    let (lo, hi) = (lo.min(hi), lo.max(hi));
    if !(y >= lo - 1e-5 && y <= hi + 1e-5) {
        return Err(viol("curve", format!("{stage:?} at progress {p:.6} with slope {slope:?}, from {from:?} to {to:?}: level {y:?}, expected {lo:?}..{hi:?}; {}", tr())));
    }
    Ok(())
}

fn c16(c: &mut Ctx) -> R {
    let sys = !c.small() && c.case < 3000;
    let k = c.case as usize;
    let sr = if sys {
        [1000.0f32, 8000.0, 48000.0][k % 3]
    } else {
        match c.rng.below(12) {
            0 => c.rng.pick(&[44100.0f32, 48000.0, 96000.0]),
            1 => 192000.0,
            2 => c.rng.logf(100.0, 192000.0),
            _ => c.rng.logf(100.0, 3000.0),
        }
    };
    if sr == 192000.0 {
        c.cov("rate 192k");
    }
    let time = |c: &mut Ctx| -> f32 {
        let cap = if c.small() { 60.0 / sr } else if c.rng.chance(1, 60) || sr < 3000.0 { 2.0 } else { 2000.0 / sr };
        match c.rng.below(10) {
            0 => 1.0 / sr,
            1 => c.rng.f(0.0, 0.98) / sr,
            2 => cap.min(2.0),
            3 => c.rng.range(1, 60) as f32 / sr,
            4 => c.rng.f(1.0, 20.0) / sr,
            _ => c.rng.logf(1.0 / sr as f64, cap as f64),
        }
    };
    let (a, d, r) = if sys {
        let t = [0.003f32, 0.01, 0.0625, 0.2][k / 3 % 4];
        (t, [0.01f32, 0.04, 0.005][k / 12 % 3], [0.02f32, 0.004][k / 36 % 2])
    } else {
        (time(c), time(c), time(c))
    };
    let slope = if sys { [0.05f32, 0.2, 0.5, 1.0, 2.0, 5.0, 20.0][k / 72 % 7] } else { c.rng.logf(0.05, 20.0) };
    let s = if sys { [0.0f32, 0.1, 0.5, 0.8, 1.0][k / 504 % 5] } else if c.rng.chance(1, 8) { c.rng.pick(&[0.0f32, 1.0]) } else { c.rng.f(0.0, 1.0) };
    for v in [a, d, s, r, slope, sr] {
        c.sigf(v);
    }
    if slope == 0.05 {
        c.cov("slope 1/20");
    }
    if slope == 20.0 {
        c.cov("slope 20");
    }
    if s == 0.0 {
        c.cov("sustain 0");
    }
    if s == 1.0 {
        c.cov("sustain 1");
    }
    let mut g = Rig::new(a, d, s, r, slope, sr);
    if c.rng.chance(1, 2) {
        // same parameters through the setters
        g = Rig::new(0.5, 0.25, 0.3, 0.125, 1.5, 777.0);
        g.set_sr(sr);
        g.set_time(0, a);
        g.set_time(1, d);
        g.set_time(2, r);
        g.set_sustain(s);
        g.set_slope(slope);
    }
    let desc = format!("attack {a:?} decay {d:?} sustain {s:?} release {r:?} slope {slope:?} rate {sr:?}");
    let sl = g.p.slope;
    let second = c.rng.chance(1, 4);
    for round in 0..1 + second as usize {
        g.e.trigger_on();
        let mut start = 0.0f64;
        for stage in [Attack, Decay, Release] {
            let kx = match stage {
                Attack => 0,
                Decay => 1,
                _ => 2,
            };
            if stage == Release {
                for _ in 0..c.rng.usize(4) {
                    let y = g.e.tick();
                    c.ok(y == s, "sustain", || format!("{desc}: sustain tick returned {y:?}"))?;
                }
                g.e.trigger_off();
            }
            let inc = g.p.inc[kx];
            let n_ideal = 1.0 / inc;
            let to = match stage {
                Attack => 1.0,
                Decay => g.p.sus,
                _ => 0.0,
            };
            let limit = (n_ideal * 1.02).ceil() as u64 + 3;
            let mut n = 0u64;
            let mut extreme = start;
            let mut y;
            loop {
                y = g.e.tick() as f64;
                n += 1;
                let p = n as f64 * inc;
                let done = g.e.get_state() != stage;
                if !done {
                    judge_curve(c, stage, p.min(1.0), sl, start, to, y, &|| desc.clone())?;
                    if stage == Attack {
                        c.ok(y >= extreme - 0.005, "monotone", || format!("{desc}: attack fell from {extreme:?} to {y:?} at tick {n}"))?;
                        extreme = extreme.max(y);
                    } else {
                        c.ok(y <= extreme + 0.005 * (start - to).max(0.0) + 1e-7, "monotone", || format!("{desc}: {stage:?} rose from {extreme:?} to {y:?} at tick {n}"))?;
                        extreme = extreme.min(y);
                    }
                    c.cov("curve point");
                } else {
                    c.ok(y as f32 == to as f32, "end", || format!("{desc}: {stage:?} ended on {y:?}, expected {to:?}"))?;
                    break;
                }
                if n > limit {
                    return Err(viol("too-long", format!("{desc}: {stage:?} not over after {n} ticks, {n_ideal:.2} requested")));
                }
            }
            // a span too small to resolve may end early
            let span = (start - to).abs();
            let resolvable = match stage {
                Attack => true,
                Decay => span >= 0.01,
                _ => span >= 0.001,
            };
            if resolvable {
                let nf = n as f64;
                c.ok(nf >= n_ideal * 0.98 - 2.0, "too-short", || format!("{desc}: {stage:?} took {n} ticks, {n_ideal:.2} requested"))?;
                c.max("stage length error beyond 2 ticks (fraction)", ((nf - n_ideal).abs() - 2.0) / n_ideal);
                if n_ideal < 0.99 {
                    c.ok(n == 1, "sub-sample", || format!("{desc}: {stage:?} shorter than a sample took {n} ticks"))?;
                    c.cov("sub-sample time");
                }
                if (n_ideal - 1.0).abs() < 1e-3 {
                    c.cov("one-sample time");
                }
                if n_ideal >= 1.99 * sr as f64 {
                    c.cov("two second stage");
                }
                c.cov(match stage {
                    Attack => "attack timed",
                    Decay => "decay timed",
                    _ => "release timed",
                });
            }
            start = to;
        }
        let st = g.e.get_state();
        c.ok(st == Idle, "idle", || format!("{desc}: round {round} ended in {st:?}"))?;
    }
    c.nontrivial();
    c.sample(|| desc);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn mid_time(c: &mut Ctx, sr: f32) -> f32 {
    match c.rng.below(10) {
        0 => any_time(c, sr),
        _ => c.rng.logf(2.0, 120.0) / sr,
    }
}

fn c17(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 5000) {
        return crate::long::run(c, k);
    }
    let sr0 = any_sr(c);
    let (a, d, s, r, sl) = (mid_time(c, sr0), mid_time(c, sr0), any_sustain(c), mid_time(c, sr0), any_slope(c));
    let mut g = Rig::new(a, d, s, r, sl, sr0);
    for v in [a, d, s, r, sl, sr0] {
        c.sigf(v);
    }
    if sl < 0.05 || sl > 20.0 {
        c.cov("slope clamped in constructor");
    }
    c.note(|| format!("new({a:?},{d:?},{s:?},{r:?},{sl:?},{sr0:?})"));
    let mut st = Idle;
    let mut last = 0.0f64; // level last output
    let mut p = 0.0f64; // progress of the stage
    let mut exact = true; // attack started from zero progress
    let mut rel = 0.0f64; // level at the start of release
    let mut sus_changed_in_sustain = false;
    let mut nontrivial = false;
    let ops = if c.small() { 25 } else { 90 };
    for _ in 0..ops {
        match c.rng.below(14) {
            0 | 1 => {
                c.note(|| format!("on (in {st:?})"));
                g.e.trigger_on();
                match st {
                    Idle | Attack => {
                        // from idle the attack starts at zero; a gate on during attack may restart it
                        exact = st == Idle;
                    }
                    Decay => {
                        exact = false;
                        c.cov("retrigger from decay")
                    }
                    Sustain => {
                        exact = false;
                        c.cov("retrigger from sustain")
                    }
                    Release => {
                        exact = false;
                        c.cov("retrigger from release")
                    }
                }
                st = Attack;
                p = 0.0;
            }
            2 => {
                c.note(|| format!("off (in {st:?})"));
                g.e.trigger_off();
                match st {
                    Attack => c.cov("release from attack"),
                    Decay => c.cov("release from decay"),
                    Sustain => {
                        c.cov("release from sustain");
                        if sus_changed_in_sustain {
                            c.cov("release after sustain change");
                        }
                    }
                    _ => {}
                }
                if matches!(st, Attack | Decay | Sustain) {
                    if st != Sustain {
                        nontrivial = true;
                    }
                    st = Release;
                    rel = last;
                    p = 0.0;
                }
            }
            3 => {
                if c.rng.chance(1, 4) {
                    c.note(|| "reset".into());
                    g.e.reset();
                    st = Idle;
                    last = 0.0;
                }
            }
            4 | 5 => {
                let k = c.rng.usize(3);
                let t = mid_time(c, g.p.sr as f32);
                c.note(|| format!("time{k}={t:?} at {:?} (in {st:?})", g.p.sr));
                c.sigf(t);
                g.set_time(k, t);
                if matches!((st, k), (Attack, 0) | (Decay, 1) | (Release, 2)) {
                    c.cov("time changed in stage");
                    nontrivial = true;
                }
                if g.p.sr != sr0 as f64 {
                    c.cov("rate changed then time set");
                }
            }
            6 => {
                let s = any_sustain(c);
                c.note(|| format!("sustain={s:?} (in {st:?})"));
                c.sigf(s);
                g.set_sustain(s);
                if st == Decay {
                    c.cov("sustain changed in decay");
                    nontrivial = true;
                }
                sus_changed_in_sustain = st == Sustain;
            }
            7 => {
                let s = any_slope(c);
                c.note(|| format!("slope={s:?} (in {st:?})"));
                c.sigf(s);
                if s < 0.05 || s > 20.0 {
                    c.cov("slope clamped by setter");
                }
                g.set_slope(s);
                if matches!(st, Attack | Decay | Release) {
                    c.cov("slope changed in stage");
                    nontrivial = true;
                }
            }
            8 => {
                if c.rng.chance(1, 3) {
                    let s = any_sr(c);
                    c.note(|| format!("rate={s:?} (in {st:?})"));
                    // the running stage times are not touched
                    g.set_sr(s);
                    c.cov("rate changed alone");
                }
            }
            _ => {
                let n = match c.rng.below(6) {
                    0 => 1,
                    1 => 150,
                    _ => 1 + c.rng.usize(40),
                };
                let n = if c.small() { n.min(15) } else { n };
                c.note(|| format!("tick x{n} (in {st:?})"));
                c.sig(n as u64);
                for _ in 0..n {
                    let y = g.e.tick() as f64;
                    let now = g.e.get_state();
                    c.obs.evals += 1;
                    match st {
                        Idle => {
                            if y != 0.0 {
                                return Err(viol("idle", format!("idle tick returned {y:?}; {}", c.trace())));
                            }
                        }
                        Sustain => {
                            c.near(y, g.p.sus, 1e-7, "sustain", || "sustain tick".to_string())?;
                            sus_changed_in_sustain = false;
                        }
                        Attack => {
                            p += g.p.inc[0];
                            if now != Attack {
                                if exact {
                                    c.ok(p >= 0.98 - 2.0 * g.p.inc[0], "attack-early", || format!("attack over at progress {p:?}; {}", ""))?;
                                } else {
                                    c.cov("peak in time");
                                }
                                p = 0.0;
                            } else {
                                if p >= 1.02 + 2.0 * g.p.inc[0] {
                                    return Err(viol("attack-late", format!("no peak after {p:.4} of the attack time; {}", c.trace())));
                                }
                                if exact {
                                    let tr = c.trace();
                                    judge_curve(c, Attack, p.min(1.0), g.p.slope, 0.0, 1.0, y, &|| tr.clone())?;
                                    c.cov("curve point");
                                }
                            }
                        }
                        Decay => {
                            p += g.p.inc[1];
                            if now == Decay {
                                if p >= 1.02 + 2.0 * g.p.inc[1] {
                                    return Err(viol("decay-late", format!("no sustain after {p:.4} of the decay time; {}", c.trace())));
                                }
                                let tr = c.trace();
                                judge_curve(c, Decay, p.min(1.0), g.p.slope, 1.0, g.p.sus, y, &|| tr.clone())?;
                                c.cov("curve point");
                            } else {
                                c.near(y, g.p.sus, 1e-7, "sustain", || "end of decay".to_string())?;
                            }
                        }
                        Release => {
                            p += g.p.inc[2];
                            if y > rel * (1.0 + 1e-6) {
                                return Err(viol("jump", format!("release from {rel:?} output {y:?}; {}", c.trace())));
                            }
                            if now == Release {
                                if p >= 1.02 + 2.0 * g.p.inc[2] {
                                    return Err(viol("release-late", format!("not idle after {p:.4} of the release time; {}", c.trace())));
                                }
                                let tr = c.trace();
                                judge_curve(c, Release, p.min(1.0), g.p.slope, rel, 0.0, y, &|| tr.clone())?;
                                c.cov("curve point");
                            } else if rel > 1e-3 {
                                c.ok(p >= 0.98 - 2.0 * g.p.inc[2], "release-early", || format!("idle after {p:?} of the release time; {}", ""))?;
                            }
                        }
                    }
                    last = y;
                    st = now;
                }
            }
        }
    }
    if nontrivial {
        c.nontrivial();
    }
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}
