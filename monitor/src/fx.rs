//! C08-C13: comb, all-pass section, biquad processing and designs, stability.
use crate::core::*;
use crate::mem::Win;
use crate::Prop;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb};
use std::f64::consts::PI;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            run: c08,
            cases: 288_000,
            systematic: 200,
            miri: 10,
            serial: false,
            rule: "A case runs a comb over a buffer (length, prior contents, input signal random) with feedback/dampening changes and buffer swaps, judging every step against the recurrence from the observed buffer, with rigorously propagated rounding bounds. Non-trivial: the buffer wrapped at least once with non-zero feedback; distinct by length, parameters and inputs.",
            required: &["step", "default parameters", "feedback change", "dampening change", "swap to shorter", "swap to longer", "swap to the same start", "swap to empty", "wrap around", "prior contents", "length 1", "impulse", "long run", "dampening 0", "feedback beyond 1", "dampening outside 0..1", "long buffer", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C09",
            run: c09,
            cases: 360_000,
            systematic: 200,
            miri: 10,
            serial: false,
            rule: "A case runs an all-pass section over a buffer (length, prior contents, input signal random) with buffer swaps, judging every step against the recurrence from the observed buffer. Non-trivial: the buffer wrapped at least once; distinct by length and inputs.",
            required: &["step", "swap to shorter", "swap to longer", "swap to the same start", "swap to empty", "wrap around", "prior contents", "length 1", "impulse", "long run", "long buffer", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C10",
            run: c10,
            cases: 120_000,
            systematic: 100,
            miri: 8,
            serial: false,
            rule: "A case feeds a signal through a biquad whose coefficients change at random times (raw values and designs) and judges every output against the difference equation with the coefficients in force at each past sample. Non-trivial: at least one coefficient change between samples with non-zero state; distinct by coefficients and inputs.",
            required: &["sample", "live change", "design change", "unset filter silent", "impulse", "tiny signal", "large signal", "long run", "fields poked", "sparse coefficients", "marathon", "marathon beyond 2^24"],
        },
        Prop {
            id: "C11",
            run: c11,
            cases: 400_000,
            systematic: 4_000,
            miri: 10,
            serial: false,
            rule: "A case designs one filter (low-pass, high-pass, notch or all-pass; systematic grid of cutoff and Q, then log-uniform random incl. range ends) and compares all coefficients with the bilinear transform of the prototype; a subset is also run and its impulse response transformed. Non-trivial: every design; distinct by type, cutoff, Q and rate.",
            required: &["lowpass", "highpass", "notch", "allpass", "impulse response measured", "redesign", "ratio only", "low cutoff", "high cutoff", "q below 0.5", "q above 10", "cutoff above 0.3", "gain at cutoff"],
        },
        Prop {
            id: "C12",
            run: c12,
            cases: 400_000,
            systematic: 4_000,
            miri: 10,
            serial: false,
            rule: "A case designs one bell or low shelf with gain g and -g (systematic grid, then log-uniform random incl. range ends), compares coefficients with the prototype, checks that cut inverts boost and that explicit and combined forms agree. Non-trivial: every design pair; distinct by type, cutoff, Q, gain and rate.",
            required: &["bell", "low shelf", "inverse pair", "explicit forms", "gain 1", "gain 30", "gain below 1", "beyond 40 dB", "cutoff above 0.3", "low cutoff", "high cutoff", "redesign", "impulse response measured", "q below 0.5", "q above 10"],
        },
        Prop {
            id: "C13",
            run: c13,
            cases: 360_000,
            systematic: 600,
            miri: 8,
            serial: false,
            rule: "A case designs one filter (poles judged exactly) or runs a comb / all-pass / biquad on a bounded hostile input and then on silence, judging the bound at every step and the decay within a computed number of steps. Non-trivial: every design or run with non-zero input; distinct by parameters.",
            required: &["poles judged", "biquad decayed", "comb bounded", "comb decayed", "all-pass bounded", "all-pass decayed", "high feedback", "negative feedback", "prior contents", "redesign while running"],
        },
    ]
}

fn pick_len(c: &mut Ctx) -> usize {
    if c.small() {
        return 1 + c.rng.usize(6);
    }
    if c.case < 200 {
        return 1 + c.case as usize % 100;
    }
    if c.rng.chance(1, 2000) {
        return 60_000 + c.rng.usize(80_000);
    }
    match c.rng.below(40) {
        0 => 1000 + c.rng.usize(4000),
        1..=4 => c.rng.len(1200),
        _ => 1 + c.rng.usize(40),
    }
}

struct Rig {
    wins: Vec<Win>,
    model: Vec<Vec<f32>>,
    w: usize,
    /// the part of window `w` in use
    lo: usize,
    len: usize,
    at: Option<usize>,
}
const NONE: usize = usize::MAX;

impl Rig {
    fn new(c: &mut Ctx) -> Rig {
        let nb = 1 + c.rng.usize(3);
        let mut r = Rig { wins: vec![], model: vec![], w: 0, lo: 0, len: 0, at: Some(0) };
        for _ in 0..nb {
            let n = pick_len(c);
            if n > 1000 {
                c.cov("long buffer");
            }
            c.sig(n as u64);
            let prior = c.rng.chance(1, 2);
            if prior {
                c.cov("prior contents");
            }
            let d: Vec<f32> = (0..n).map(|_| if prior { c.rng.sample() } else { 0.0 }).collect();
            r.wins.push(Win::new(c, &d));
            r.model.push(d);
        }
        // unique contents are needed to know where a fresh filter starts
        r.at = Some(0);
        r.len = r.model[0].len();
        if r.len == 1 {
            c.cov("length 1");
        }
        r
    }
    fn n(&self) -> usize {
        self.len
    }
    fn m(&self, i: usize) -> f32 {
        self.model[self.w][self.lo + i]
    }
    fn ptr(&self) -> *mut f32 {
        unsafe { self.wins[self.w].buf.ptr().add(self.wins[self.w].off + self.lo) }
    }
    fn swap(&mut self, c: &mut Ctx) -> MemorySlice<Mutable> {
        let old = self.n();
        let t = if c.rng.chance(1, 5) { NONE } else { c.rng.usize(self.wins.len()) };
        let t = if self.w != NONE && c.rng.chance(1, 2) { self.w } else { t };
        if t == NONE {
            self.len = 0;
        } else {
            // another part of the window in use, often one with the same start
            let all = self.model[t].len();
            let same = t == self.w && c.rng.chance(1, 2);
            if !same {
                self.lo = if c.rng.chance(1, 2) { 0 } else { c.rng.usize(all) };
            }
            let most = all - self.lo;
            self.len = if c.rng.chance(1, 2) { most } else { 1 + c.rng.usize(most) };
            if same && old != self.len {
                c.cov("swap to the same start");
            }
        }
        self.w = t;
        let n = self.n();
        c.sig(n as u64);
        c.note(|| format!("swap {old} -> {n}"));
        if t != NONE {
            // unique contents so that the first output tells the position
            let f = c.rng.f(0.5, 2.0) / (n as f32 + 1.0);
            for i in 0..n {
                let v = (i + 1) as f32 * f;
                self.wins[t].set(self.lo + i, v);
                self.model[t][self.lo + i] = v;
            }
        }
        self.at = None;
        c.cov(if n == 0 {
            "swap to empty"
        } else if n < old {
            "swap to shorter"
        } else {
            "swap to longer"
        });
        if t == NONE {
            null_mut()
        } else {
            let mut v = null_mut();
            unsafe { v.change_mut_slice_unchecked(self.ptr(), n) };
            v
        }
    }
    /// slot that the step with output `out` used; None when the buffer is empty
    fn slot(&mut self, c: &mut Ctx, what: &str, delayed: f64, tol: f64) -> Result<Option<usize>, Viol> {
        let n = self.n();
        if n == 0 {
            return c.near(delayed, 0.0, tol, "silence", || format!("{what} without buffer: delayed sample")).map(|_| None);
        }
        if self.at.is_none() {
            let m = &self.model[self.w][self.lo..self.lo + n];
            let (i, d) = m.iter().enumerate().map(|(i, v)| (i, (*v as f64 - delayed).abs())).min_by(|a, b| a.1.total_cmp(&b.1)).unwrap();
            if d > tol {
                return Err(viol("swap", format!("{what}: after a swap to {n} samples the delayed sample {delayed:?} is not in the buffer; {}", c.trace())));
            }
            self.at = Some(i);
        }
        Ok(self.at)
    }
    fn step_checked(&mut self, c: &mut Ctx, what: &str, slot: Option<usize>, stored: f64, tol: f64) -> R {
        let Some(i) = slot else { return Ok(()) };
        let n = self.n();
        let g = self.wins[self.w].get(self.lo + i);
        c.near(g as f64, stored, tol, "stored", || format!("{what} over {n} samples: sample stored in slot {i}; {}", ""))?;
        self.model[self.w][self.lo + i] = g;
        // no other slot may change: neighbours at once, all of them for short buffers
        let (lo, hi) = if n <= 48 { (0, n) } else { (i.saturating_sub(2), (i + 3).min(n)) };
        for j in lo..hi {
            let (a, b) = (self.wins[self.w].get(self.lo + j), self.m(j));
            if a.to_bits() != b.to_bits() {
                return Err(viol("other-slot", format!("{what} over {n} samples: step on slot {i} changed slot {j} from {b:?} to {a:?}")));
            }
        }
        c.ev((hi - lo) as u64);
        self.at = Some(if i + 1 == n { 0 } else { i + 1 });
        if i + 1 == n {
            c.cov("wrap around");
        }
        Ok(())
    }
    fn full(&mut self, c: &mut Ctx, what: &str) -> R {
        for t in 0..self.wins.len() {
            let m = std::mem::take(&mut self.model[t]);
            self.wins[t].check(c, &m, what)?;
            self.model[t] = m;
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
enum Sig {
    Noise,
    Impulse,
    Step,
    Alt,
    Burst,
    Tiny,
    Hot,
}
fn sig_kind(c: &mut Ctx) -> Sig {
    match c.rng.below(8) {
        0 => Sig::Impulse,
        1 => Sig::Step,
        2 => Sig::Alt,
        3 => Sig::Burst,
        4 => Sig::Tiny,
        5 => Sig::Hot,
        _ => Sig::Noise,
    }
}
fn signal(c: &mut Ctx, k: Sig, n: usize) -> f32 {
    match k {
        Sig::Noise => c.rng.sample(),
        Sig::Impulse => {
            if n == 0 {
                1.0
            } else {
                0.0
            }
        }
        Sig::Step => 0.75,
        Sig::Alt => {
            if n % 2 == 0 {
                0.9
            } else {
                -0.9
            }
        }
        Sig::Burst => {
            if (n / 37) % 2 == 0 {
                c.rng.f(-1.0, 1.0)
            } else {
                0.0
            }
        }
        Sig::Tiny => c.rng.f(-1e-6, 1e-6),
        Sig::Hot => c.rng.f(-1e4, 1e4),
    }
}

fn steps(c: &mut Ctx, n: usize) -> usize {
    let s = match c.rng.below(20) {
        0 => {
            c.cov("long run");
            20 * n.min(500) + 2000
        }
        1..=6 => 3 * n + 5,
        _ => n + c.rng.usize(2 * n + 20),
    };
    if c.small() {
        s.min(30)
    } else if n > 50_000 {
        2 * n + 1000
    } else {
        s.min(20_000)
    }
}

fn c08(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 2500) {
        return crate::long::run(c, k);
    }
    let mut rig = Rig::new(c);
    let mut f = Comb::new(rig.wins[0].view_mut());
    let (mut fb, mut damp) = (0.5f32, 0.5f32);
    let (mut lp, mut lp_tol) = (0.0f64, 0.0f64);
    let mut fresh = true;
    let kind = sig_kind(c);
    if matches!(kind, Sig::Impulse) {
        c.cov("impulse");
    }
    c.cov("default parameters");
    let total = steps(c, rig.n());
    let change = if c.rng.chance(1, 4) { 0 } else { 1 + c.rng.below(40) };
    let swaps = c.rng.chance(1, 3);
    // settings beyond the stable range count as well
    let wild = c.rng.chance(1, 8);
    let mut since = 0;
    let mut nontrivial = false;
    for k in 0..total {
        if change > 0 && c.rng.below(change) == 0 {
            if c.rng.chance(1, 2) {
                fb = c.rng.pick(&[0.0f32, 0.5, 0.84, 0.98, -0.7, 1.0, -1.0, 0.25]);
                if c.rng.chance(1, 2) {
                    fb = c.rng.f(-1.0, 1.0);
                }
                if wild && c.rng.chance(1, 2) {
                    fb = c.rng.f(-1.0, 1.0) * c.rng.pick(&[1.5f32, 4.0, 100.0]);
                    if fb.abs() > 1.0 {
                        c.cov("feedback beyond 1");
                    }
                }
                f.set_feedback(fb);
                c.sigf(fb);
                c.note(|| format!("step {k}: feedback {fb:?}"));
                c.cov("feedback change");
            } else {
                damp = c.rng.pick(&[0.0f32, 1.0, 0.5, 0.2, 0.999]);
                if c.rng.chance(2, 3) {
                    damp = c.rng.f(0.0, 1.0);
                }
                if wild && c.rng.chance(1, 2) {
                    damp = c.rng.f(-1.0, 2.0);
                    if damp < 0.0 || damp > 1.0 {
                        c.cov("dampening outside 0..1");
                    }
                }
                f.set_dampening(damp);
                c.sigf(damp);
                c.note(|| format!("step {k}: dampening {damp:?}"));
                c.cov("dampening change");
                if damp == 0.0 {
                    c.cov("dampening 0");
                }
            }
        }
        if swaps && c.rng.below(60) == 0 {
            let v = rig.swap(c);
            f.change_buffer(v);
            since = 0;
            fresh = false;
        }
        let x = signal(c, kind, k);
        if k < 8 {
            c.sigf(x);
        }
        let out = f.tick(x);
        let at = rig.slot(c, "comb", out as f64, 0.0)?;
        if let Some(i) = at {
            let m = rig.m(i);
            c.ok(out.to_bits() == m.to_bits() || out == m, "output", || format!("comb over {} samples, step {k}: output {out:?}, the sample stored {} steps earlier is {m:?}", rig.n(), rig.n()))?;
        }
        let (o, d) = (out as f64, damp as f64);
        let (t1, t2) = (o * (1.0 - d), lp * d);
        // rounding of any of the equivalent forms (o*(1-d) + lp*d, o + (lp-o)*d, lp + (o-lp)*(1-d))
        let mag = (o.abs() + lp.abs()) * if (0.0..=1.0).contains(&d) { 1.0 } else { 2.0 + 2.0 * d.abs() };
        lp = t1 + t2;
        lp_tol = lp_tol * d.abs() + 3.0 * EPS * (mag + lp.abs()) + 1e-44;
        let stored = x as f64 + lp * fb as f64;
        let tol = lp_tol * (fb as f64).abs() + 2.0 * EPS * (x.abs() as f64 + (lp * fb as f64).abs()) + 1e-44;
        rig.step_checked(c, "comb", at, stored, tol)?;
        // an unstable loop is left before anything overflows
        if !(stored.abs() <= 1e30 && lp.abs() <= 1e30 && lp_tol <= 1e20) {
            break;
        }
        c.cov("step");
        since += 1;
        if since > rig.n() && rig.n() > 0 && fb != 0.0 {
            nontrivial = true;
        }
        if rig.n() > 48 && k % 256 == 255 {
            rig.full(c, "comb buffer")?;
        }
    }
    let _ = fresh;
    // the slice it reports is the buffer it works on
    let p = f.get_ptr_slice_mut();
    let n = rig.n();
    let want = if n > 0 { rig.ptr() } else { std::ptr::null_mut() };
    c.ok(p.len() == n && (n == 0 || p as *mut f32 == want), "slice", || format!("comb reports {} samples, buffer has {n}", p.len()))?;
    rig.full(c, "comb buffer")?;
    if nontrivial {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| format!("comb over {n}, {total} steps: {t}"));
    }
    Ok(())
}

fn c09(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 2500) {
        return crate::long::run(c, k);
    }
    let mut rig = Rig::new(c);
    let mut f = AllPass::new(rig.wins[0].view_mut());
    let kind = sig_kind(c);
    if matches!(kind, Sig::Impulse) {
        c.cov("impulse");
    }
    let total = steps(c, rig.n());
    let swaps = c.rng.chance(1, 3);
    let mut since = 0;
    let mut nontrivial = false;
    for k in 0..total {
        if swaps && c.rng.below(60) == 0 {
            let v = rig.swap(c);
            f.change_buffer(v);
            since = 0;
        }
        let x = signal(c, kind, k);
        if k < 8 {
            c.sigf(x);
        }
        let out = f.tick(x) as f64;
        let xd = x as f64;
        let dtol = EPS * (out.abs() + xd.abs()) + 1e-44;
        let at = if rig.n() > 0 && rig.at.is_none() {
            // unique contents are spaced by more than this while the input is moderate
            let gap = if rig.n() > 1 { (rig.m(1) - rig.m(0)).abs() as f64 / 2.0 } else { f64::INFINITY };
            if dtol > gap {
                return Ok(());
            }
            rig.slot(c, "all-pass", out + xd, dtol)?
        } else {
            if rig.n() == 0 {
                rig.slot(c, "all-pass", out + xd, dtol)?
            } else {
                rig.at
            }
        };
        if let Some(i) = at {
            let d = rig.m(i) as f64;
            c.near(out, d - xd, EPS * (d.abs() + xd.abs()) + 1e-44, "output", || format!("all-pass over {} samples, step {k}, input {x:?}, stored {d:?}", rig.n()))?;
            let s = xd + d * 0.5;
            rig.step_checked(c, "all-pass", at, s, EPS * (xd.abs() + d.abs()) + 1e-44)?;
        }
        c.cov("step");
        since += 1;
        if since > rig.n() && rig.n() > 0 {
            nontrivial = true;
        }
        if rig.n() > 48 && k % 256 == 255 {
            rig.full(c, "all-pass buffer")?;
        }
    }
    let p = f.get_ptr_slice_mut();
    let n = rig.n();
    let want = if n > 0 { rig.ptr() } else { std::ptr::null_mut() };
    c.ok(p.len() == n && (n == 0 || p as *mut f32 == want), "slice", || format!("all-pass reports {} samples, buffer has {n}", p.len()))?;
    rig.full(c, "all-pass buffer")?;
    if nontrivial {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| format!("all-pass over {n}, {total} steps: {t}"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Biquads
// ---------------------------------------------------------------------------------------------

type Bq = Biquad<Butterworth>;
type Co = BiquadCoeffs<Butterworth>;

fn coefs(c: &Co) -> [f64; 5] {
    [c.b0 as f64, c.b1 as f64, c.b2 as f64, c.a1 as f64, c.a2 as f64]
}
fn bits(c: &Co) -> [u32; 5] {
    [c.b0.to_bits(), c.b1.to_bits(), c.b2.to_bits(), c.a1.to_bits(), c.a2.to_bits()]
}

fn rates(c: &mut Ctx) -> f32 {
    match c.rng.below(4) {
        0 => c.rng.logf(1.0, 1e6),
        1 => c.rng.pick(&[8000.0f32, 22050.0, 32000.0, 96000.0, 192000.0, 1.0]),
        _ => c.rng.pick(&[44100.0f32, 48000.0]),
    }
}

/// design by number; gain used by bell and shelf
fn design(co: &mut Co, k: u64, fc: f32, q: f32, g: f32, sr: f32) -> &'static str {
    match k {
        0 => {
            co.lowpass(fc, q, sr);
            "lowpass"
        }
        1 => {
            co.highpass(fc, q, sr);
            "highpass"
        }
        2 => {
            co.notch(fc, q, sr);
            "notch"
        }
        3 => {
            co.allpass(fc, q, sr);
            "allpass"
        }
        4 => {
            co.bell(fc, q, g, sr);
            "bell"
        }
        _ => {
            co.low_shelf(fc, q, g, sr);
            "low shelf"
        }
    }
}

fn c10(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 2500) {
        return crate::long::run(c, k);
    }
    let mut f: Bq = Biquad::new(BiquadCoeffs::new());
    if c.rng.chance(1, 10) {
        for _ in 0..20 {
            let x = c.rng.sample();
            let y = f.process(x);
            c.ok(y == 0.0, "unset", || format!("filter without coefficients: input {x:?} gave {y:?}"))?;
        }
        c.cov("unset filter silent");
        f = Biquad::new(BiquadCoeffs::new());
    }
    let kind = sig_kind(c);
    match kind {
        Sig::Impulse => c.cov("impulse"),
        Sig::Tiny => c.cov("tiny signal"),
        Sig::Hot => c.cov("large signal"),
        _ => {}
    }
    let n = if c.small() {
        30
    } else if c.rng.chance(1, 40) {
        c.cov("long run");
        20_000
    } else {
        40 + c.rng.usize(300)
    };
    let change = if c.rng.chance(1, 5) { 0 } else { 1 + c.rng.below(30) };
    // [x, y, coefs] of the two previous samples
    let mut h: [(f64, f64, [f64; 5]); 2] = [(0.0, 0.0, [0.0; 5]); 2];
    let mut nontrivial = false;
    for k in 0..n {
        if k == 0 || (change > 0 && c.rng.below(change) == 0) {
            match c.rng.below(4) {
                3 => {
                    // sparse and round: the identity, silence, pure delays, pure feedback
                    let mut v = [0.0f32; 5];
                    for _ in 0..c.rng.below(3) {
                        v[c.rng.usize(5)] = c.rng.pick(&[1.0f32, -1.0, 0.5, -0.5, -0.0, 2.0]);
                    }
                    if c.rng.chance(1, 3) {
                        v = [1.0, 0.0, 0.0, 0.0, 0.0];
                    }
                    v[3] *= 0.9;
                    v[4] *= 0.5;
                    (f.coeffs.b0, f.coeffs.b1, f.coeffs.b2, f.coeffs.a1, f.coeffs.a2) = (v[0], v[1], v[2], v[3], v[4]);
                    c.note(|| format!("step {k}: coefficients {v:?}"));
                    c.cov("sparse coefficients");
                }
                0 => {
                    let (fc, q, g) = (c.rng.logf(0.0005, 0.4) * 48000.0, c.rng.logf(0.2, 20.0), c.rng.logf(1.0, 30.0) * c.rng.pick(&[1.0f32, -1.0]));
                    let t = c.rng.below(6);
                    let name = design(&mut f.coeffs, t, fc, q, g, 48000.0);
                    c.note(|| format!("step {k}: {name} {fc:?} {q:?} {g:?}"));
                    c.cov("design change");
                }
                1 => {
                    f.coeffs.b0 = c.rng.sample();
                    f.coeffs.b1 = c.rng.sample();
                    f.coeffs.b2 = c.rng.sample();
                    // stable-ish denominators most of the time
                    let r = c.rng.f(0.0, 1.02);
                    let w = c.rng.f(0.0, PI);
                    f.coeffs.a1 = -2.0 * r * w.cos();
                    f.coeffs.a2 = r * r;
                    c.note(|| format!("step {k}: raw coefficients"));
                    c.cov("fields poked");
                }
                _ => {
                    let v = c.rng.f(-1.5, 1.5);
                    match c.rng.below(5) {
                        0 => f.coeffs.b0 = v,
                        1 => f.coeffs.b1 = v,
                        2 => f.coeffs.b2 = v,
                        3 => f.coeffs.a1 = v,
                        _ => f.coeffs.a2 = v * 0.6,
                    }
                    c.note(|| format!("step {k}: one coefficient {v:?}"));
                    c.cov("fields poked");
                }
            }
            for b in bits(&f.coeffs) {
                c.sig(b as u64);
            }
            if k > 2 && h[0].1 != 0.0 {
                nontrivial = true;
                c.cov("live change");
            }
        }
        let x = signal(c, kind, k);
        if k < 8 {
            c.sigf(x);
        }
        let before = bits(&f.coeffs);
        let y = f.process(x);
        c.ok(before == bits(&f.coeffs), "coeffs", || format!("processing a sample changed the coefficients: {before:x?}"))?;
        let co = coefs(&f.coeffs);
        let t = [co[0] * x as f64, h[0].2[1] * h[0].0, -h[0].2[3] * h[0].1, h[1].2[2] * h[1].0, -h[1].2[4] * h[1].1];
        let want: f64 = t.iter().sum();
        let mag: f64 = t.iter().map(|v| v.abs()).sum();
        if mag > 1e30 {
            break;
        }
        c.near(y as f64, want, 4.0 * EPS * mag + 1e-43, "difference-equation", || format!("biquad step {k}, input {x:?}; {}", ""))?;
        c.cov("sample");
        h[1] = h[0];
        h[0] = (x as f64, y as f64, co);
    }
    if nontrivial {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| t);
    }
    Ok(())
}

/// analog prototype (n2 s^2 + n1 s + n0) / (d2 s^2 + d1 s + d0), middle numerator/denominator terms as intervals
#[derive(Clone, Copy)]
struct Proto {
    n: [f64; 3],
    d: [f64; 3],
    n1_rel: f64,
    d1_rel: f64,
}

/// digital coefficients (b0 b1 b2 a1 a2) and the size of the terms they are made of
fn bilinear(p: &Proto, k: f64, en: f64, ed: f64) -> ([f64; 5], [f64; 5]) {
    let n1 = p.n[1] * (1.0 + en * p.n1_rel);
    let d1 = p.d[1] * (1.0 + ed * p.d1_rel);
    let a0 = p.d[0] + d1 * k + p.d[2] * k * k;
    let k2 = k * k;
    (
        [
            (p.n[0] + n1 * k + p.n[2] * k2) / a0,
            2.0 * (p.n[2] * k2 - p.n[0]) / a0,
            (p.n[0] - n1 * k + p.n[2] * k2) / a0,
            2.0 * (p.d[2] * k2 - p.d[0]) / a0,
            (p.d[0] - d1 * k + p.d[2] * k2) / a0,
        ],
        [
            (p.n[0] + n1.abs() * k + p.n[2] * k2) / a0,
            2.0 * (p.n[2] * k2 + p.n[0]) / a0,
            (p.n[0] + n1.abs() * k + p.n[2] * k2) / a0,
            2.0 * (p.d[2] * k2 + p.d[0]) / a0,
            (p.d[0] + d1 * k + p.d[2] * k2) / a0,
        ],
    )
}

/// accuracy of the crate's tangent approximation at x (see C30): a series up to the fifteenth power
/// falls short of the tangent by this fraction
pub fn tan_rel(x: f64) -> f64 {
    1.5e-6 + 1.02 * (2.0 * x / PI).powi(16)
}

/// ideal coefficients and per-coefficient tolerance
fn ideal(p: &Proto, ratio: f64) -> ([f64; 5], [f64; 5]) {
    let x = PI * ratio;
    let k = x.tan();
    let (c0, mag) = bilinear(p, k, 0.0, 0.0);
    let mut tol = [0.0; 5];
    let e = tan_rel(x);
    let sh: &[f64] = if p.n1_rel > 0.0 || p.d1_rel > 0.0 { &[-1.0, -0.5, 0.0, 0.5, 1.0] } else { &[0.0] };
    for ke in [-1.0, 0.0, 1.0] {
        for &s in sh {
            let (c1, _) = bilinear(p, k * (1.0 + ke * e), s, s);
            for i in 0..5 {
                tol[i] = f64::max(tol[i], (c1[i] - c0[i]).abs() * 1.05);
            }
        }
    }
    for i in 0..5 {
        tol[i] += 8.0 * EPS * mag[i];
    }
    (c0, tol)
}

fn judge_coefs(c: &mut Ctx, co: &Co, p: &Proto, ratio: f64, what: &dyn Fn() -> String) -> R {
    let (want, tol) = ideal(p, ratio);
    let got = coefs(co);
    const NAMES: [&str; 5] = ["b0", "b1", "b2", "a1", "a2"];
    for i in 0..5 {
        c.near(got[i], want[i], tol[i], "response", || format!("{}: coefficient {}", what(), NAMES[i]))?;
    }
    Ok(())
}

fn cdiv(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let m = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / m, (a.1 * b.0 - a.0 * b.1) / m)
}
/// H at digital frequency w from coefficients
fn response(co: &[f64; 5], w: f64) -> (f64, f64) {
    let (c1, s1, c2, s2) = (w.cos(), w.sin(), (2.0 * w).cos(), (2.0 * w).sin());
    let n = (co[0] + co[1] * c1 + co[2] * c2, -co[1] * s1 - co[2] * s2);
    let d = (1.0 + co[3] * c1 + co[4] * c2, -co[3] * s1 - co[4] * s2);
    cdiv(n, d)
}
fn cabs(a: (f64, f64)) -> f64 {
    a.0.hypot(a.1)
}
fn pole_radius(co: &[f64; 5]) -> f64 {
    let (a1, a2) = (co[3], co[4]);
    let disc = a1 * a1 - 4.0 * a2;
    if disc < 0.0 {
        a2.max(0.0).sqrt()
    } else {
        let s = disc.sqrt();
        ((-a1 + s) / 2.0).abs().max(((-a1 - s) / 2.0).abs())
    }
}

/// run the filter on an impulse and compare the transform of what comes out with the ideal response
fn measure(c: &mut Ctx, co: Co, p: &Proto, ratio: f64, what: &dyn Fn() -> String) -> R {
    let want = if ratio > 0.3 { coefs(&co) } else { ideal(p, ratio).0 };
    let r = pole_radius(&want);
    let n = ((1e8f64).ln() / -r.ln()) as usize + 40;
    if n > 20_000 {
        return Ok(());
    }
    let real = coefs(&co);
    let mut f: Bq = Biquad::new(co);
    let h: Vec<f64> = (0..n).map(|i| f.process(if i == 0 { 1.0 } else { 0.0 }) as f64).collect();
    let l1: f64 = h.iter().map(|v| v.abs()).sum();
    let mut ws = vec![0.0, PI, 2.0 * PI * ratio];
    for _ in 0..5 {
        ws.push(c.rng.unit() * PI);
        ws.push((2.0 * PI * ratio * (0.5 + c.rng.unit())).min(PI));
    }
    // gain error allowed: tangent approximation seen through the resonance, sqrt of the shelf, f32 noise
    let e = tan_rel(PI * ratio) + 3e-6;
    for w in ws {
        let (mut re, mut im) = (0.0, 0.0);
        for (i, v) in h.iter().enumerate() {
            let a = w * i as f64;
            re += v * a.cos();
            im -= v * a.sin();
        }
        let k = (PI * ratio).tan();
        let mut spread = 0.0f64;
        let sh: &[f64] = if p.n1_rel > 0.0 || p.d1_rel > 0.0 { &[-1.0, 0.0, 1.0] } else { &[0.0] };
        // close to Nyquist the tangent falls visibly short: there the stream is held against the
        // coefficients, which are judged on their own
        let h0 = if ratio > 0.3 { response(&real, w) } else { response(&bilinear(p, k, 0.0, 0.0).0, w) };
        for &ke in if ratio > 0.3 { &[][..] } else { &[-1.0, 1.0][..] } {
            for &s in sh {
                let h1 = response(&bilinear(p, k * (1.0f64 + ke * e), s, s).0, w);
                spread = spread.max((h1.0 - h0.0).hypot(h1.1 - h0.1));
            }
        }
        // rounding of coefficients and state, amplified by the denominator at this frequency
        let dw = cabs(cdiv((1.0, 0.0), response(&[1.0, 0.0, 0.0, want[3], want[4]], w)));
        let noise = 8.0 * EPS * (cabs(h0) + l1 + 2.0) / dw + 1e-6;
        let d = (re - h0.0).hypot(im - h0.1);
        c.near(d, 0.0, 1.1 * spread + noise, "measured", || format!("{}: measured response at {w:?} rad is ({re:?},{im:?}), prototype ({:?},{:?}), error", what(), h0.0, h0.1))?;
    }
    c.cov("impulse response measured");
    Ok(())
}

fn pick_design(c: &mut Ctx, hi: f64) -> (f32, f32, f32, f32) {
    // systematic grid first
    if !c.small() && c.case < 4000 {
        let k = c.case as usize;
        let (i, j, g) = (k / 4 % 40, k / 160 % 5, k / 800 % 5);
        let ratio = (0.0005f64.ln() + (hi.ln() - 0.0005f64.ln()) * i as f64 / 39.0).exp();
        let q = [0.1f32, 0.5, std::f32::consts::FRAC_1_SQRT_2, 10.0, 100.0][j];
        let gain = [1.0f32, 0.05, 4.0, 0.5, 30.0][g];
        let sr = 48000.0f32;
        return ((ratio * sr as f64) as f32, q, gain, sr);
    }
    let sr = rates(c);
    let ratio = match c.rng.below(8) {
        0 => c.rng.pick(&[0.0005f64, hi, 0.25, 0.1, 0.01, 0.001]),
        1 => 0.0005 + (hi - 0.0005) * c.rng.unit(),
        2 => 0.0005 + 0.002 * c.rng.unit(),
        3 => 0.3 + (hi - 0.3) * c.rng.unit(),
        _ => c.rng.logf(0.0005, hi) as f64,
    };
    let q = match c.rng.below(6) {
        0 => c.rng.pick(&[0.1f32, 0.2, 0.5, 0.70710678, 1.0, 2.0, 10.0, 20.0, 100.0]),
        1 => c.rng.logf(20.0, 100.0),
        _ => c.rng.logf(0.1, 20.0),
    };
    let g = match c.rng.below(6) {
        0 => c.rng.pick(&[1.0f32, 2.0, 10.0, 30.0, 0.5, 0.1, 0.05]),
        1 => c.rng.logf(0.05, 1.0),
        2 => c.rng.logf(0.001, 1000.0),
        _ => c.rng.logf(1.0, 30.0),
    };
    if g > 100.0 || g < 0.01 {
        c.cov("beyond 40 dB");
    }
    if g < 1.0 {
        c.cov("gain below 1");
    }
    if ratio > 0.3 {
        c.cov("cutoff above 0.3");
    }
    ((ratio * sr as f64) as f32, q, g, sr)
}

fn dirty(c: &mut Ctx, co: &mut Co) {
    // whatever was designed before must not matter
    if c.rng.chance(1, 2) {
        let k = c.rng.below(6);
        let (fc, q, g) = (c.rng.f(100.0, 10000.0), c.rng.logf(0.3, 10.0), c.rng.f(1.0, 9.0));
        design(co, k, fc, q, g, 48000.0);
    } else {
        co.b0 = 3.0;
        co.b1 = -7.0;
        co.b2 = 11.0;
        co.a1 = 0.3;
        co.a2 = -0.4;
    }
}

fn same(c: &mut Ctx, a: &Co, b: &Co, tol: f64, key: &'static str, what: &dyn Fn() -> String) -> R {
    let (x, y) = (coefs(a), coefs(b));
    for i in 0..5 {
        c.near(x[i], y[i], tol * (x[i].abs() + y[i].abs()), key, || format!("{}: coefficient {i}", what()))?;
    }
    Ok(())
}

fn mark(c: &mut Ctx, ratio: f64, q: f32) {
    if ratio < 0.002 {
        c.cov("low cutoff");
    }
    if ratio > 0.2 {
        c.cov("high cutoff");
    }
    if q < 0.5 {
        c.cov("q below 0.5");
    }
    if q > 10.0 {
        c.cov("q above 10");
    }
}

fn c11(c: &mut Ctx) -> R {
    let (fc, q, _, sr) = pick_design(c, 0.45);
    let t = c.case % 4;
    let ratio = fc as f64 / sr as f64;
    let qd = q as f64;
    let mut co: Co = BiquadCoeffs::new();
    let name = design(&mut co, t, fc, q, 0.0, sr);
    c.sig(t);
    c.sigf(fc);
    c.sigf(q);
    c.sigf(sr);
    let p = match t {
        0 => Proto { n: [0.0, 0.0, 1.0], d: [1.0, 1.0 / qd, 1.0], n1_rel: 0.0, d1_rel: 0.0 },
        1 => Proto { n: [1.0, 0.0, 0.0], d: [1.0, 1.0 / qd, 1.0], n1_rel: 0.0, d1_rel: 0.0 },
        2 => Proto { n: [1.0, 0.0, 1.0], d: [1.0, 1.0 / qd, 1.0], n1_rel: 0.0, d1_rel: 0.0 },
        _ => Proto { n: [1.0, -1.0 / qd, 1.0], d: [1.0, 1.0 / qd, 1.0], n1_rel: 0.0, d1_rel: 0.0 },
    };
    let what = || format!("{name}({fc:?}, {q:?}, {sr:?})");
    judge_coefs(c, &co, &p, ratio, &what)?;
    c.cov(match t {
        0 => "lowpass",
        1 => "highpass",
        2 => "notch",
        _ => "allpass",
    });
    mark(c, ratio, q);
    // gain at the cutoff, through the realised coefficients
    let g = cabs(response(&coefs(&co), 2.0 * PI * ratio));
    if ratio > 0.005 {
        let want = match t {
            0 | 1 => qd,
            2 => 0.0,
            _ => 1.0,
        };
        let k = (PI * ratio).tan();
        let e = tan_rel(PI * ratio) * 2.0 * (qd + 1.0) + 60.0 * EPS * (qd + 1.0) / (k * k).min(1.0);
        c.near(g, want, e * (qd + 1.0), "cutoff-gain", || format!("{name}({fc:?}, {q:?}, {sr:?}): gain at the cutoff"))?;
        c.cov("gain at cutoff");
    }
    // designing over a previous design
    let mut co2: Co = BiquadCoeffs::new();
    dirty(c, &mut co2);
    design(&mut co2, t, fc, q, 0.0, sr);
    same(c, &co, &co2, 0.0, "redesign", &|| format!("{name}({fc:?}, {q:?}, {sr:?}) over an earlier design"))?;
    c.cov("redesign");
    // only the ratio matters
    let s = 2f32.powi(c.rng.range(-4, 4) as i32);
    let mut co3: Co = BiquadCoeffs::new();
    design(&mut co3, t, fc * s, q, 0.0, sr * s);
    let (_, tol) = ideal(&p, ratio);
    let (x, y) = (coefs(&co), coefs(&co3));
    for i in 0..5 {
        c.near(x[i], y[i], tol[i] * 0.5 + 1e-30, "ratio", || format!("{name} at ({fc:?},{sr:?}) and at {s} times both: coefficient {i}"))?;
    }
    c.cov("ratio only");
    if c.case % 16 < 4 && ratio > 0.003 {
        let skip = c.small() && c.case % 3 != 0;
        if !skip {
            measure(c, co2, &p, ratio, &what)?;
        }
    }
    c.nontrivial();
    c.sample(|| format!("{name}({fc:?}, {q:?}, {sr:?}): gain at cutoff {g:.5}"));
    Ok(())
}

fn c12(c: &mut Ctx) -> R {
    let (fc, q, g, sr) = pick_design(c, 0.45);
    let shelf = c.case % 2 == 1;
    let ratio = fc as f64 / sr as f64;
    let (qd, gd) = (q as f64, g as f64);
    c.sig(shelf as u64);
    c.sigf(fc);
    c.sigf(q);
    c.sigf(g);
    c.sigf(sr);
    c.cov(if shelf { "low shelf" } else { "bell" });
    if g == 1.0 {
        c.cov("gain 1");
    }
    if g == 30.0 {
        c.cov("gain 30");
    }
    mark(c, ratio, q);
    let t = if shelf { 5 } else { 4 };
    let den = [1.0, 1.0 / qd, 1.0];
    let (num, rel) = if shelf { ([1.0, (2.0 * gd).sqrt(), gd], 0.065) } else { ([1.0, gd / qd, 1.0], 0.0) };
    let pb = Proto { n: num, d: den, n1_rel: rel, d1_rel: 0.0 };
    let pc = Proto { n: den, d: num, n1_rel: 0.0, d1_rel: rel };
    let name = if shelf { "low_shelf" } else { "bell" };
    let (mut boost, mut cut): (Co, Co) = (BiquadCoeffs::new(), BiquadCoeffs::new());
    design(&mut boost, t, fc, q, g, sr);
    design(&mut cut, t, fc, q, -g, sr);
    judge_coefs(c, &boost, &pb, ratio, &|| format!("{name}({fc:?}, {q:?}, {g:?}, {sr:?})"))?;
    judge_coefs(c, &cut, &pc, ratio, &|| format!("{name}({fc:?}, {q:?}, {:?}, {sr:?})", -g))?;
    // cut is the exact inverse of boost: its numerator is boost's denominator and vice versa
    let (b, k) = (coefs(&boost), coefs(&cut));
    let (_, mb) = bilinear(&pb, (PI * ratio).tan(), 0.0, 0.0);
    let want = [1.0 / b[0], b[3] / b[0], b[4] / b[0], b[1] / b[0], b[2] / b[0]];
    let mags = [1.0 / b[0], mb[3] / b[0], mb[4] / b[0], mb[1] / b[0], mb[2] / b[0]];
    for i in 0..5 {
        c.near(k[i], want[i], 24.0 * EPS * mags[i].abs(), "inverse", || format!("{name}({fc:?}, {q:?}, +-{g:?}, {sr:?}): coefficient {i} of the cut against the inverse of the boost"))?;
    }
    c.cov("inverse pair");
    // explicit forms
    let (mut b2, mut k2): (Co, Co) = (BiquadCoeffs::new(), BiquadCoeffs::new());
    dirty(c, &mut b2);
    dirty(c, &mut k2);
    if shelf {
        b2.low_shelf_boost_only(fc, q, g, sr);
        k2.low_shelf_cut_only(fc, q, -g, sr);
    } else {
        b2.bell_boost_only(fc, q, g, sr);
        k2.bell_cut_only(fc, q, -g, sr);
    }
    same(c, &boost, &b2, 4.0 * EPS, "explicit-boost", &|| format!("{name}_boost_only({fc:?}, {q:?}, {g:?}, {sr:?})"))?;
    same(c, &cut, &k2, 4.0 * EPS, "explicit-cut", &|| format!("{name}_cut_only({fc:?}, {q:?}, {:?}, {sr:?})", -g))?;
    c.cov("explicit forms");
    // redesign from anything
    let gs = if c.rng.chance(1, 2) { g } else { -g };
    let mut r: Co = BiquadCoeffs::new();
    dirty(c, &mut r);
    design(&mut r, t, fc, q, gs, sr);
    same(c, &r, if gs > 0.0 { &boost } else { &cut }, 0.0, "redesign", &|| format!("{name}({fc:?}, {q:?}, {gs:?}, {sr:?}) over an earlier design"))?;
    c.cov("redesign");
    if c.case % 16 < 4 && ratio > 0.003 && !(c.small() && c.case % 3 != 0) {
        let p = if gs > 0.0 { &pb } else { &pc };
        measure(c, r, p, ratio, &|| format!("{name}({fc:?}, {q:?}, {gs:?}, {sr:?})"))?;
    }
    c.nontrivial();
    c.sample(|| format!("{name}({fc:?}, {q:?}, +-{g:?}, {sr:?})"));
    Ok(())
}

fn c13(c: &mut Ctx) -> R {
    match c.case % 3 {
        0 => c13_biquad(c),
        1 => c13_comb(c),
        _ => c13_allpass(c),
    }
}

fn c13_biquad(c: &mut Ctx) -> R {
    let t = c.rng.below(6);
    let sr = rates(c);
    let ratio = match c.rng.below(5) {
        0 => c.rng.pick(&[0.001f64, 0.45, 0.4, 0.3]),
        1 => 0.001 + 0.449 * c.rng.unit(),
        _ => c.rng.logf(0.001, 0.45) as f64,
    };
    let fc = (ratio * sr as f64) as f32;
    let q = if c.rng.chance(1, 5) { c.rng.pick(&[0.2f32, 20.0]) } else { c.rng.logf(0.2, 20.0) };
    let g = if c.rng.chance(1, 5) { c.rng.pick(&[1.0f32, 30.0]) } else { c.rng.logf(1.0, 30.0) } * c.rng.pick(&[1.0f32, -1.0]);
    let mut f: Bq = Biquad::new(BiquadCoeffs::new());
    let name = design(&mut f.coeffs, t, fc, q, g, sr);
    c.sig(t);
    c.sigf(fc);
    c.sigf(q);
    c.sigf(g);
    let what = format!("{name}({fc:?}, {q:?}, {g:?}, {sr:?})");
    let co = coefs(&f.coeffs);
    c.ok(co.iter().all(|v| v.is_finite()), "finite", || format!("{what}: coefficients {co:?}"))?;
    // triangle test, exact in double precision for f32 coefficients
    c.ok(co[4] < 1.0 && co[4] > -1.0 && co[3].abs() < 1.0 + co[4], "poles", || format!("{what}: a1 {:?}, a2 {:?} are not inside the stability triangle", co[3], co[4]))?;
    c.cov("poles judged");
    let r = pole_radius(&co);
    c.max("largest pole radius", r);
    c.nontrivial();
    c.sample(|| format!("{what}: pole radius {r:.6}"));
    let cap = if c.small() { 600 } else { 60_000 };
    let need = 4.0 * (1e6f64).ln() / -r.ln() + 200.0;
    if need > cap as f64 {
        return Ok(());
    }
    let n = 50 + c.rng.usize(if c.small() { 20 } else { 400 });
    let kind = sig_kind(c);
    let mut peak_in = 0.0f64;
    // sum |h| bounds the output for any input
    let l1 = {
        let mut h: Bq = Biquad::new(BiquadCoeffs::new());
        design(&mut h.coeffs, t, fc, q, g, sr);
        (0..need as usize).map(|i| h.process(if i == 0 { 1.0 } else { 0.0 }).abs() as f64).sum::<f64>()
    };
    let redesign = c.rng.chance(1, 4);
    let mut peak = 0.0f64;
    for i in 0..n {
        let x = signal(c, kind, i);
        peak_in = peak_in.max(x.abs() as f64);
        if redesign && i == n / 2 {
            // an identical redesign while running does not disturb the stability of the stream
            design(&mut f.coeffs, t, fc, q, g, sr);
            c.cov("redesign while running");
        }
        let y = f.process(x) as f64;
        peak = peak.max(y.abs());
        c.ok(y.abs() <= l1 * peak_in * (1.0 + 1e-3) + 1e-30, "bound", || format!("{what}: output {y:?} on inputs up to {peak_in:?}, impulse response sums to {l1:?}"))?;
    }
    let mut last = 0.0f64;
    let m = need as usize;
    for i in 0..m {
        let y = f.process(0.0) as f64;
        c.ev(1);
        if !(y.abs() <= l1 * peak_in * (1.0 + 1e-3) + 1e-30) {
            return Err(viol("bound", format!("{what}: tail {y:?} on inputs up to {peak_in:?}, impulse response sums to {l1:?}")));
        }
        if i + 200 >= m {
            last = last.max(y.abs());
        }
    }
    let lim = 1e-5 * peak_in * (1.0 + l1) + 1e-30;
    c.ok(last <= lim, "decay", || format!("{what}: still {last:?} after {m} samples of silence (input peak {peak_in:?})"))?;
    c.cov("biquad decayed");
    Ok(())
}

fn small_win(c: &mut Ctx) -> (Win, f64) {
    let top = if c.small() {
        4
    } else if c.rng.chance(1, 8) {
        400
    } else {
        40
    };
    let n = 1 + c.rng.usize(top);
    let prior = c.rng.chance(1, 2);
    if prior {
        c.cov("prior contents");
    }
    let amp = c.rng.logf(0.01, 100.0);
    let d: Vec<f32> = (0..n).map(|_| if prior { c.rng.f(-1.0, 1.0) * amp } else { 0.0 }).collect();
    let p = d.iter().fold(0.0f64, |a, v| a.max(v.abs() as f64));
    (Win::new(c, &d), p)
}

fn c13_comb(c: &mut Ctx) -> R {
    let (win, prior) = small_win(c);
    let n = win.len;
    let mut f = Comb::new(win.view_mut());
    let fb = match c.rng.below(4) {
        0 => c.rng.pick(&[0.5f32, 0.0, 0.999, -0.999, 0.9]),
        _ => c.rng.f(-0.99, 0.99),
    };
    let damp = match c.rng.below(4) {
        0 => c.rng.pick(&[0.0f32, 0.5, 0.99]),
        _ => c.rng.f(0.0, 0.98),
    };
    f.set_feedback(fb);
    f.set_dampening(damp);
    c.sig(n as u64);
    c.sigf(fb);
    c.sigf(damp);
    if fb.abs() > 0.95 {
        c.cov("high feedback");
    }
    if fb < 0.0 {
        c.cov("negative feedback");
    }
    let what = format!("comb over {n}, feedback {fb:?}, dampening {damp:?}");
    let run = (if c.small() { 3 } else { 12 }) * n + 40;
    let kind = sig_kind(c);
    let g = 1.0 - fb.abs() as f64;
    let mut x_peak = 0.0f64;
    let mut worst = 0.0f64;
    // worst-case input: sign-matched to what comes out
    let adversarial = c.rng.chance(1, 2);
    let mut last = 1.0f32;
    for i in 0..run {
        let x = if adversarial { last.signum() * fb.signum() * 0.8 } else { signal(c, kind, i) };
        x_peak = x_peak.max(x.abs() as f64);
        let y = f.tick(x);
        last = y;
        let bound = prior.max(x_peak / g) * (1.0 + 8.0 * EPS / g + 1e-6) + 1e-30;
        worst = worst.max(y.abs() as f64 / bound);
        c.ok(y.abs() as f64 <= bound, "bound", || format!("{what}: output {y:?} at step {i}, bound {bound:?} (input peak {x_peak:?}, prior {prior:?})"))?;
    }
    c.max("comb output / bound", worst);
    c.cov("comb bounded");
    c.nontrivial();
    c.sample(|| what.clone());
    // decay by 1000: each pass of the loop plus the low-pass memory multiplies by |fb| (rigorous: see DESIGN)
    let m0 = prior.max(x_peak / g);
    let lpm = if damp > 0.0 { (1e-2f64).ln() / (damp as f64).ln() } else { 0.0 };
    let rate = -((fb.abs() as f64 + 0.01 * (1.0 - fb.abs() as f64)).max(1e-6)).ln();
    let passes = (1e3f64).ln() / rate + 2.0;
    let steps = (passes * (n as f64 + lpm + 1.0)) as usize + n;
    if steps > if c.small() { 2000 } else { 120_000 } {
        return Ok(());
    }
    for _ in 0..steps {
        f.tick(0.0);
    }
    let tail = (0..n).map(|_| f.tick(0.0).abs() as f64).fold(0.0, f64::max);
    c.ok(tail <= 1e-3 * m0 * (1.0 + 1e-3) + 1e-30, "decay", || format!("{what}: still {tail:?} after {steps} silent steps (bound before {m0:?})"))?;
    c.cov("comb decayed");
    Ok(())
}

fn c13_allpass(c: &mut Ctx) -> R {
    let (win, prior) = small_win(c);
    let n = win.len;
    let mut f = AllPass::new(win.view_mut());
    let run = (if c.small() { 3 } else { 12 }) * n + 40;
    let kind = sig_kind(c);
    let adversarial = c.rng.chance(1, 2);
    let (mut x_peak, mut worst) = (0.0f64, 0.0f64);
    c.sig(n as u64);
    let mut hist = vec![0.0f32; n];
    for i in 0..run {
        // an input whose sign opposes the delayed sample drives the section to its bound
        let x = if adversarial { if (i / n) % 6 == 5 { -0.9 } else { 0.9 } } else { signal(c, kind, i) };
        x_peak = x_peak.max(x.abs() as f64);
        let y = f.tick(x);
        hist[i % n] = y;
        let bound = 3.0 * prior.max(x_peak) * (1.0 + 1e-5) + 1e-30;
        worst = worst.max(y.abs() as f64 / bound);
        c.ok(y.abs() as f64 <= bound, "bound", || format!("all-pass over {n}: output {y:?} at step {i}, bound {bound:?}"))?;
        if i < 4 {
            c.sigf(x);
        }
    }
    c.max("all-pass output / bound", worst);
    c.cov("all-pass bounded");
    c.nontrivial();
    // the stored samples halve once per pass
    for _ in 0..24 * n {
        f.tick(0.0);
    }
    let tail = (0..n).map(|_| f.tick(0.0).abs() as f64).fold(0.0, f64::max);
    let m0 = 2.0 * prior.max(x_peak);
    c.ok(tail <= m0 * 2f64.powi(-23) + 1e-30, "decay", || format!("all-pass over {n}: still {tail:?} after {} silent steps (stored up to {m0:?})", 24 * n))?;
    c.cov("all-pass decayed");
    c.sample(|| format!("all-pass over {n}, prior peak {prior:?}, input peak {x_peak:?}"));
    Ok(())
}
