//! C45: operations interrupted at every instruction. The processor's trap flag raises a signal after
//! each instruction of the operation under test; its handler plays the interrupt: it uses the crate on
//! instances of its own, looks at the samples, or changes them like a transfer in the background.
use crate::conc::{bits, pure, PURE_OPS};
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::{from_slice, from_slice_mut, MemorySlice, Mutable, NonMutable};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use std::cell::Cell;
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::ptr::{null_mut, read_volatile, write_volatile};
use std::sync::Once;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C45",
        run: c45,
        cases: 4_000,
        systematic: (4 * X * X) as u64,
        miri: 0,
        serial: false,
        rule: "Two thirds of the cases run a sequence of operations on one set of instances and let an interrupt after every instruction run operations on another set; results of both must be those of undisturbed runs. One third runs two accesses to one buffer back to back, looks at every slot after every instruction, changes the samples between the two, and compares with the accesses made apart; or polls a sample that an interrupt changes. Non-trivial: at least 20 instructions were interrupted; distinct by operations and arguments.",
        required: &[
            "handler ran the crate", "same operation in the handler", "filter design interrupted", "numeric function interrupted", "delay line interrupted", "comb interrupted", "all-pass interrupted", "biquad interrupted",
            "envelope interrupted", "oscillator interrupted", "view interrupted", "conversion interrupted", "sine integral interrupted", "two accesses", "read after change", "write seen in between", "slot watched", "polled", "place known to the compiler",
        ],
    }]
}

// ---------------------------------------------------------------------------------------------
// Single-stepping

struct Live<'a> {
    steps: u64,
    hook: &'a mut dyn FnMut(u64),
}
thread_local! {
    static LIVE: Cell<*mut Live<'static>> = const { Cell::new(null_mut()) };
}

/// a longer operation goes on undisturbed after this many instructions
const MOST: u64 = 6000;

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let p = LIVE.with(|l| l.get());
    let mut more = false;
    if !p.is_null() {
        let l = unsafe { &mut *p };
        l.steps += 1;
        (l.hook)(l.steps);
        more = l.steps < MOST;
    }
    if !more {
        let ctx = ctx.cast::<libc::ucontext_t>();
        unsafe { (*ctx).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
    }
}

#[inline(never)]
fn opaque(f: &mut dyn FnMut()) {
    black_box(f)()
}

/// Runs `f`; `hook` is called after each of its instructions. It must not allocate.
fn stepped(hook: &mut dyn FnMut(u64), f: &mut dyn FnMut()) -> u64 {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, null_mut());
    });
    let mut live = Live { steps: 0, hook };
    LIVE.with(|l| l.set((&mut live as *mut Live).cast()));
    let r = catch_unwind(AssertUnwindSafe(|| {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        opaque(f);
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    }));
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    LIVE.with(|l| l.set(null_mut()));
    let n = unsafe { read_volatile(&live.steps) };
    if let Err(e) = r {
        resume_unwind(e);
    }
    n
}

// ---------------------------------------------------------------------------------------------
// Reentrancy

const KIT_OPS: u64 = PURE_OPS + 17;

/// One of everything; no operation on it allocates.
struct Kit {
    // the instances below point into these
    _mem: Vec<Box<[f32; 24]>>,
    table: MemorySlice<NonMutable>,
    v: MemorySlice<Mutable>,
    spare: MemorySlice<Mutable>,
    here: MemorySlice<Mutable>,
    coeffs: BiquadCoeffs<Butterworth>,
    d: DelayLine,
    c: Comb,
    a: AllPass,
    q: Biquad<Butterworth>,
    e: AudioRateADSR,
    f: FunctionalOscillator<SoftPhaseAccumulator>,
    w: WavetableOscillator<SoftPhaseAccumulator>,
    p: SoftPhaseAccumulator,
}

impl Kit {
    fn new(seed: u64) -> Kit {
        let mut g = Rng::new(seed);
        let mut mem: Vec<Box<[f32; 24]>> = (0..7).map(|_| Box::new(std::array::from_fn(|_| g.f(-1.0, 1.0)))).collect();
        let mut lens: Vec<usize> = (0..7).map(|_| 1 + g.usize(24)).collect();
        lens[0] = 4 + g.usize(20);
        let v: Vec<MemorySlice<Mutable>> = mem.iter_mut().zip(&lens).map(|(m, l)| from_slice_mut(&mut m[..*l])).collect();
        let table = from_slice(&mem[0][..lens[0]]);
        let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
        q.coeffs.lowpass(g.f(100.0, 5000.0), 0.7, 48_000.0);
        let mut c = Comb::new(v[2]);
        c.set_dampening(g.f(0.0, 0.9));
        c.set_feedback(g.f(-0.9, 0.9));
        let pa = |g: &mut Rng| SoftPhaseAccumulator::new(g.f(1.0, 10_000.0), 48_000.0);
        Kit {
            table,
            v: v[5],
            spare: v[6],
            here: v[1],
            coeffs: BiquadCoeffs::new(),
            d: DelayLine::new(v[1]),
            c,
            a: AllPass::new(v[3]),
            q,
            e: AudioRateADSR::new(g.f(0.0, 0.02), g.f(0.0, 0.02), g.f(0.0, 1.0), g.f(0.0, 0.02), g.f(0.3, 3.0), 1000.0),
            f: FunctionalOscillator::new(pa(&mut g)),
            w: WavetableOscillator::new(table, pa(&mut g)),
            p: pa(&mut g),
            _mem: mem,
        }
    }
    fn act(&mut self, op: u64, a: &[f32; 4]) -> u64 {
        let one = |x: f32| bits(x) as u64;
        let n = self.v.len() as f32;
        if op < PURE_OPS {
            return pure(op, a, &self.table, &mut self.coeffs);
        }
        match op - PURE_OPS {
            0 => {
                self.d.write_and_advance(a[0]);
                one(self.d.read()) << 32 | one(self.d.read_wrapped_at((a[1] * 60.0 - 30.0) as isize))
            }
            1 => one(self.d.read_lerp_wrapped_at(a[0] * 60.0)) << 32 | one(self.d.read_lagrange_wrapped_at(a[1] * 60.0)),
            2 => {
                let to = if a[0] < 0.5 { self.spare } else { self.here };
                self.d.change_buffer(to);
                self.d.advance();
                self.d.len() as u64 ^ one(self.d.read()) << 16
            }
            3 => one(self.c.tick(a[0] - 0.5)) << 32 | one(self.c.tick(a[1] - 0.5)),
            4 => {
                self.c.set_feedback(a[0] * 1.8 - 0.9);
                self.c.set_dampening(a[1] * 0.9);
                one(self.c.tick(a[2]))
            }
            5 => one(self.a.tick(a[0] - 0.5)) << 32 | one(self.a.tick(a[1] - 0.5)),
            6 => one(self.q.process(a[0] - 0.5)) << 32 | one(self.q.process(a[1] - 0.5)),
            7 => {
                self.q.coeffs.bell(a[0] * 10_000.0 + 50.0, a[1] + 0.2, a[2] * 8.0 - 4.0, 48_000.0);
                one(self.q.process(a[3] - 0.5))
            }
            8 => one(self.e.tick()) << 32 | one(self.e.tick()) ^ self.e.get_state() as u64,
            9 => {
                match (a[0] * 8.0) as u32 {
                    0 | 1 | 2 => self.e.trigger_on(),
                    3 => self.e.trigger_off(),
                    4 => self.e.set_attack(a[1] * 0.03),
                    5 => self.e.set_decay(a[1] * 0.03),
                    6 => self.e.set_sustain(a[1]),
                    _ => self.e.set_slope(a[1] * 3.0),
                }
                one(self.e.tick())
            }
            10 => {
                self.f.set_wave(match (a[0] * 4.0) as u32 {
                    0 => Waveform::Rectangle,
                    1 => Waveform::Sawtooth,
                    2 => Waveform::Triangle,
                    _ => Waveform::Sine,
                });
                one(self.f.next()) << 32 | one(self.f.next())
            }
            11 => one(self.w.next()) << 32 | one(self.w.next()),
            12 => {
                self.f.set_freq_unchecked(a[0] * 10_000.0);
                self.w.set_phase_shift_unchecked(a[1]);
                self.w.set_freq_unchecked(a[2] * 10_000.0);
                let x = self.p.set_freq(a[3] * 40_000.0 - 8000.0).is_ok() as u64;
                x ^ (self.p.next_value() as u64) << 1
            }
            13 => {
                let i = (a[0] * n * 1.2) as usize;
                let r = self.v.assign(i, a[1]).is_ok() as u64;
                let mut h = r ^ one(self.v.get(i).unwrap_or(-7.0)) << 1;
                for o in 0..self.v.len() {
                    h = mix(h ^ one(self.v.get_wrapped(o as isize - 3)));
                }
                h
            }
            14 => {
                let s = self.v.get_sub_slice((a[0] * n) as usize, (a[1] * n) as usize);
                let h = match &s {
                    Ok(s) => s.len() as u64,
                    Err(e) => 100 + (*e == embedded_audio_tools::errors::MemSliceError::IndexOutOfBound) as u64,
                };
                h ^ one(self.v.lerp(a[2] * n).unwrap_or(-7.0)) << 8 ^ one(self.v.get_slice_of_four_wrapped((a[3] * 100.0 - 50.0) as isize)[3]) << 32
            }
            15 => {
                let k = a[0].to_f32_components();
                let w = a[1].to_raw_word();
                let d = (a[2].to_decibels_checked().unwrap_or(-7.0), lerp(a[0], a[1], a[2]).unwrap_or(-7.0), a[3].seconds_to_samples(48_000.0));
                mix(f32::from_f32_components(k).to_bits() as u64 ^ (w as u64) << 32) ^ one(d.0) ^ one(d.1) << 20 ^ one(d.2) << 32
            }
            _ => one((a[0] * 20.0 - 10.0).si()),
        }
    }
}

fn label(op: u64) -> &'static str {
    match op {
        0..=9 => "filter design interrupted",
        26 | 27 => "view interrupted",
        28 => "envelope interrupted",
        29 | 30 | 31 => "oscillator interrupted",
        _ if op < PURE_OPS => "numeric function interrupted",
        _ => ["delay line interrupted", "delay line interrupted", "delay line interrupted", "comb interrupted", "comb interrupted", "all-pass interrupted", "biquad interrupted", "biquad interrupted", "envelope interrupted", "envelope interrupted", "oscillator interrupted", "oscillator interrupted", "oscillator interrupted", "view interrupted", "view interrupted", "conversion interrupted", "sine integral interrupted"][(op - PURE_OPS) as usize],
    }
}

fn pick_op(g: &mut Rng) -> u64 {
    loop {
        let op = g.below(KIT_OPS);
        // the sine integral takes tens of thousands of instructions
        if op < KIT_OPS - 1 || g.chance(1, 12) {
            return op;
        }
    }
}

const HANDLER: usize = 512;

fn reentrant(c: &mut Ctx) -> R {
    let args = |g: &mut Rng| -> [f32; 4] { std::array::from_fn(|_| g.unit() as f32) };
    let m = 6;
    let mut main: Vec<(u64, [f32; 4])> = (0..m).map(|_| (pick_op(&mut c.rng), args(&mut c.rng))).collect();
    main[0].0 = c.case / 3 % KIT_OPS;
    let alike = c.rng.chance(1, 2);
    if alike {
        c.cov("same operation in the handler");
    }
    let theme = if alike { main[c.rng.usize(m)].0 } else { pick_op(&mut c.rng) };
    let used = if theme == KIT_OPS - 1 { 40 } else { HANDLER };
    let mut second: Vec<(u64, [f32; 4])> = (0..used).map(|_| (theme, args(&mut c.rng))).collect();
    for s in second.iter_mut() {
        if c.rng.chance(1, 2) && !(alike && theme >= PURE_OPS) {
            s.0 = c.rng.below(KIT_OPS - 1);
        }
        if c.rng.chance(1, 3) {
            // the very arguments the interrupted operation uses
            s.1 = main[c.rng.usize(m)].1;
        }
    }
    let (sa, sb) = (c.rng.u64(), c.rng.u64());
    for (op, a) in &main {
        c.sig(*op);
        c.sigf(a[0]);
    }
    c.sig(theme);
    // undisturbed
    let mut k = Kit::new(sa);
    let want: Vec<u64> = main.iter().map(|(op, a)| k.act(*op, a)).collect();
    let mut k = Kit::new(sb);
    let want2: Vec<u64> = second.iter().map(|(op, a)| k.act(*op, a)).collect();
    // disturbed
    let (mut ka, mut kb) = (Kit::new(sa), Kit::new(sb));
    let (mut at, mut wrong) = (0usize, None);
    let mut total = 0;
    for (j, (op, a)) in main.iter().enumerate() {
        let (mut got, before) = (0u64, at);
        // short operations: after each instruction; long ones: spread out
        let most = match *op == KIT_OPS - 1 {
            true => 60,
            false if c.rng.chance(1, 2) => 1,
            _ => 12,
        };
        let stride = 1 + c.rng.below(most);
        let first = c.rng.below(stride + 40);
        let room = used * (j + 1) / m;
        let n = stepped(
            &mut |s| {
                if s >= first && s % stride == 0 && at < room {
                    let (op, a) = &second[at];
                    let y = kb.act(*op, a);
                    if y != want2[at] && wrong.is_none() {
                        wrong = Some((at, y, s));
                    }
                    at += 1;
                }
            },
            &mut || got = ka.act(*op, a),
        );
        total += n;
        c.covn(label(*op), n);
        c.covn("handler ran the crate", (at - before) as u64);
        c.ev((at - before) as u64);
        if let Some((i, y, s)) = wrong {
            return Err(viol("handler", format!("operation {} of the interrupt handler gave {y:#x} after instruction {s} of operation {op} ({a:?}), alone {:#x}; {:?}", second[i].0, want2[i], second[i].1)));
        }
        c.ok(got == want[j], "interrupted", || format!("operation {op} ({a:?}) gave {got:#x} when interrupted {} times (operation {theme} and others) within {n} instructions, undisturbed {:#x}", at - before, want[j]))?;
    }
    if total >= 20 {
        c.nontrivial();
    }
    c.sample(|| format!("operations {:?}, {at} interrupts in {total} instructions", main.iter().map(|m| m.0).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Accesses

const MEM: usize = 8;

/// everything that can access one buffer
struct Set {
    v: MemorySlice<Mutable>,
    nv: MemorySlice<NonMutable>,
    d: DelayLine,
    c: Comb,
    a: AllPass,
    w: WavetableOscillator<SoftPhaseAccumulator>,
}

impl Set {
    fn new(mem: *mut f32, n: usize, steps: usize) -> Set {
        let m = unsafe { std::slice::from_raw_parts_mut(mem, n) };
        let v = from_slice_mut(m);
        let nv = from_slice(m);
        let mut d = DelayLine::new(v);
        for _ in 0..steps {
            d.advance();
        }
        Set { v, nv, d, c: Comb::new(v), a: AllPass::new(v), w: WavetableOscillator::new(nv, SoftPhaseAccumulator::new(1300.0, 48_000.0)) }
    }
}

const X: usize = 18;
const NAMES: [&str; X] = [
    "get", "get_unchecked", "get_wrapped", "four samples", "checked linear read", "wrapped linear read", "Lagrange read", "four-point read", "delay line read", "tap", "linear tap", "read of an unwritable view", "table oscillator",
    "assign", "assign_unchecked", "write and advance", "comb", "all-pass",
];
/// those below only read and have no state
const READS: usize = 12;

#[inline(always)]
fn x<const K: usize>(s: &mut Set, i: usize, val: f32) -> u32 {
    match K {
        0 => bits(s.v.get(i).unwrap_or(-7.0)),
        1 => bits(unsafe { s.v.get_unchecked(i) }),
        2 => bits(s.v.get_wrapped(i as isize)),
        3 => s.v.get_slice_of_four_wrapped(i as isize).iter().fold(0, |h, x| h.rotate_left(7) ^ bits(*x)),
        4 => bits(s.v.lerp(i as f32).unwrap_or(-7.0)),
        5 => bits(s.v.lerp_wrapped(i as f32 + 0.5)),
        6 => bits(s.v.lagrange_wrapped(i as f32 + 0.25, 3)),
        7 => bits(s.v.lagrange_four_points_wrapped(i as f32 + 0.25)),
        8 => bits(s.d.read()),
        9 => bits(s.d.read_wrapped_at(i as isize)),
        10 => bits(s.d.read_lerp_wrapped_at(i as f32 + 0.5)),
        11 => bits(s.nv.get(i).unwrap_or(-7.0)),
        12 => bits(s.w.next()),
        13 => s.v.assign(i, val).is_ok() as u32,
        14 => {
            unsafe { s.v.assign_unchecked(i, val) };
            0
        }
        15 => {
            s.d.write_and_advance(val);
            0
        }
        16 => bits(s.c.tick(val)),
        _ => bits(s.a.tick(val)),
    }
}

type Single = fn(&mut Set, usize, f32) -> u32;
type Pair = fn(&mut Set, usize, [f32; 2], &mut [u32; 2], &mut u32);
type Fixed = fn(&[f32; MEM], &mut *mut f32, [f32; 2], &mut [u32; 2], &mut u32);
type FixedPoll = fn(&[f32; MEM], &mut *mut f32, u32) -> u32;
type Poll = fn(&mut Set, usize, u32) -> u32;

#[inline(never)]
fn single<const K: usize>(s: &mut Set, i: usize, val: f32) -> u32 {
    x::<K>(s, i, val)
}
/// both in one function, so that the compiler may merge what it is allowed to merge
#[inline(never)]
fn pair<const K: usize, const L: usize>(s: &mut Set, i: usize, val: [f32; 2], out: &mut [u32; 2], mark: &mut u32) {
    out[0] = x::<K>(s, i, val[0]);
    unsafe { write_volatile(mark, 1) };
    out[1] = x::<L>(s, i, val[1]);
    unsafe { write_volatile(mark, 2) };
}
/// The same access twice, to a buffer that is local to the function, at a place known to the compiler: all of it can be
/// merged into one piece of code.
#[inline(never)]
fn fixed<const K: usize, const I: usize>(init: &[f32; MEM], at: &mut *mut f32, val: [f32; 2], out: &mut [u32; 2], mark: &mut u32) {
    let mut mem = [0.0f32; MEM];
    put(mem.as_mut_ptr(), init);
    unsafe { write_volatile(at, mem.as_mut_ptr()) };
    let s = &mut Set::new(mem.as_mut_ptr(), MEM, 0);
    out[0] = x::<K>(s, I, val[0]);
    unsafe { write_volatile(mark, 1) };
    out[1] = x::<K>(s, I, val[1]);
    unsafe { write_volatile(mark, 2) };
}
#[inline(never)]
fn fixed_poll<const K: usize, const I: usize>(init: &[f32; MEM], at: &mut *mut f32, until: u32) -> u32 {
    let mut mem = [0.0f32; MEM];
    put(mem.as_mut_ptr(), init);
    unsafe { write_volatile(at, mem.as_mut_ptr()) };
    let s = &mut Set::new(mem.as_mut_ptr(), MEM, 0);
    for n in 0..POLLS {
        if x::<K>(s, I, 0.0) == until {
            return n;
        }
    }
    POLLS
}
const PLACES: [usize; 3] = [0, 4, 6];
const POLLS: u32 = 40;
#[inline(never)]
fn poll<const K: usize>(s: &mut Set, i: usize, until: u32) -> u32 {
    for n in 0..POLLS {
        if x::<K>(s, i, 0.0) == until {
            return n;
        }
    }
    POLLS
}

macro_rules! each {
    ($m:ident $($pre:tt)*) => { [$m!($($pre)* 0), $m!($($pre)* 1), $m!($($pre)* 2), $m!($($pre)* 3), $m!($($pre)* 4), $m!($($pre)* 5), $m!($($pre)* 6), $m!($($pre)* 7), $m!($($pre)* 8), $m!($($pre)* 9), $m!($($pre)* 10), $m!($($pre)* 11), $m!($($pre)* 12), $m!($($pre)* 13), $m!($($pre)* 14), $m!($($pre)* 15), $m!($($pre)* 16), $m!($($pre)* 17)] };
}
macro_rules! pr { ($k:literal $l:literal) => { pair::<$k, $l> as Pair }; }
macro_rules! row { ($k:literal) => { each!(pr $k) }; }
macro_rules! sg { ($k:literal) => { single::<$k> as Single }; }
macro_rules! pl { ($k:literal) => { poll::<$k> as Poll }; }
static PAIRS: [[Pair; X]; X] = each!(row);
macro_rules! fx { ($k:literal) => { [fixed::<$k, 0> as Fixed, fixed::<$k, 4> as Fixed, fixed::<$k, 6> as Fixed] }; }
macro_rules! fp { ($k:literal) => { [fixed_poll::<$k, 0> as FixedPoll, fixed_poll::<$k, 4> as FixedPoll, fixed_poll::<$k, 6> as FixedPoll] }; }
static FIXED: [[Fixed; 3]; X] = each!(fx);
static FIXED_POLLS: [[FixedPoll; 3]; X] = each!(fp);
static SINGLES: [Single; X] = each!(sg);
static POLLED: [Poll; X] = each!(pl);

fn look(p: *const f32) -> [u32; MEM] {
    std::array::from_fn(|i| bits(unsafe { read_volatile(p.add(i)) }))
}
#[inline(always)]
fn put(p: *mut f32, v: &[f32; MEM]) {
    for (i, v) in v.iter().enumerate() {
        unsafe { write_volatile(p.add(i), *v) };
    }
}

fn accesses(c: &mut Ctx) -> R {
    // the last slots lie behind the buffer
    let k = (c.case / 3 % X as u64) as usize;
    let mut l = (c.case / 3 / X as u64 % X as u64) as usize;
    let mut n = if c.rng.chance(1, 6) { 1 } else { 1 + c.rng.usize(MEM - 1) };
    let mut steps = c.rng.usize(n);
    let mut i = c.rng.usize(n);
    let place = c.rng.usize(3);
    let known = c.case / 3 >= (X * X) as u64 && c.rng.chance(1, 2);
    if known {
        (l, n, steps, i) = (k, MEM, 0, PLACES[place]);
        c.cov("place known to the compiler");
    }
    let mut fresh = || -> [f32; MEM] { std::array::from_fn(|_| c.rng.f(-1.0, 1.0)) };
    let (init, other) = (fresh(), fresh());
    let val = [c.rng.f(1.5, 2.5), c.rng.f(-2.5, -1.5)];
    c.sig((k * X + l + 1000 * known as usize) as u64);
    c.sig(n as u64);
    c.sigf(init[0]);
    let what = || format!("{} and {} at {i} of {n} samples, delay line {steps} steps on, values {val:?}", NAMES[k], NAMES[l]);

    // made apart
    let mut mem = Box::new(init);
    let p: *mut f32 = mem.as_mut_ptr();
    let mut s = Set::new(p, n, steps);
    let o1 = black_box(SINGLES[k])(&mut s, i, val[0]);
    let m1 = look(p);
    put(p, &other);
    let o2 = black_box(SINGLES[l])(&mut s, i, val[1]);
    let m2 = look(p);
    let (i1, i2) = (init.map(bits), other.map(bits));

    // one straight after the other
    let mut mem = Box::new(init);
    let p: *mut f32 = mem.as_mut_ptr();
    let mut s = Set::new(p, n, steps);
    let (mut out, mut mark) = ([0u32; 2], 0u32);
    let mk: *mut u32 = &mut mark;
    let mut own: *mut f32 = null_mut();
    let at: *mut *mut f32 = &mut own;
    let (mut stage, mut prev) = (0u32, i1);
    // (stage, slot, value seen, instruction)
    let mut odd: Option<(u32, usize, u32, u64)> = None;
    let mut looks = 0u64;
    let n1 = stepped(
        &mut |t| {
            let now = unsafe { read_volatile(mk) };
            let p = match known {
                true => unsafe { read_volatile(at) },
                false => p,
            };
            // the function's own buffer: not yet there, gone
            if known && (p.is_null() || stage == 2) {
                return;
            }
            let seen = look(p);
            looks += 1;
            let (from, to) = if stage == 0 { (&i1, &m1) } else { (&i2, &m2) };
            for j in 0..MEM {
                // a slot is as before or as after, and does not go back
                let fine = (seen[j] == from[j] && prev[j] == from[j]) || seen[j] == to[j];
                if !fine && odd.is_none() {
                    odd = Some((stage, j, seen[j], t));
                }
            }
            prev = seen;
            if now != stage {
                for j in 0..MEM {
                    if seen[j] != to[j] && odd.is_none() {
                        odd = Some((stage + 10, j, seen[j], t));
                    }
                }
                stage = now;
                if now == 1 {
                    put(p, &other);
                    prev = i2;
                }
            }
        },
        &mut || match known {
            true => FIXED[k][place](&init, unsafe { &mut *at }, val, &mut out, unsafe { &mut *mk }),
            false => PAIRS[k][l](&mut s, i, val, &mut out, unsafe { &mut *mk }),
        },
    );
    if n1 == 0 {
        // no single-stepping on this machine; the coverage will be missing
        return Ok(());
    }
    c.covn("slot watched", looks * MEM as u64);
    c.ev(looks);
    if let Some((st, j, v, t)) = odd {
        let which = if st % 10 == 0 { "first" } else { "second" };
        let v = f32::from_bits(v);
        return Err(if st >= 10 {
            viol("late", format!("slot {j} holds {v:?} when the {which} access has returned (instruction {t}), it should hold {:?}; {}", f32::from_bits(if st == 10 { m1[j] } else { m2[j] }), what()))
        } else {
            viol("in-between", format!("slot {j} holds {v:?} during the {which} access (instruction {t}), neither what it held before nor what the access leaves; {}", what()))
        });
    }
    c.ok(stage == 2, "steps", || format!("{n1} instructions seen, stage {stage}; {}", what()))?;
    c.ok(out[0] == o1, "first", || format!("the first access gave {:#x}, alone {o1:#x}; {}", out[0], what()))?;
    c.ok(out[1] == o2, "remembered", || format!("the samples were changed after the first access; the second one gave {:?}, from memory it is {:?}; {}", f32::from_bits(out[1]), f32::from_bits(o2), what()))?;
    c.cov("two accesses");
    if l <= READS {
        c.cov("read after change");
    }
    if k > READS {
        c.cov("write seen in between");
    }

    // a loop that waits for a sample to change
    let r = k % READS;
    let flag = [c.rng.f(3.0, 4.0); MEM];
    let mut mem = Box::new(flag);
    let until = black_box(SINGLES[r])(&mut Set::new(mem.as_mut_ptr(), n, steps), i, 0.0);
    let mut mem = Box::new(init);
    let p: *mut f32 = mem.as_mut_ptr();
    let mut s = Set::new(p, n, steps);
    let mut when = 15 + c.rng.below(60);
    let mut turns = 0;
    let mut own: *mut f32 = null_mut();
    let at: *mut *mut f32 = &mut own;
    if known {
        // the delay line and the other instances are set up first
        when += 150;
    }
    let n2 = stepped(
        &mut |t| {
            if t == when {
                match known {
                    true if unsafe { read_volatile(at) }.is_null() => when += 1,
                    true => put(unsafe { read_volatile(at) }, &flag),
                    false => put(p, &flag),
                }
            }
        },
        &mut || {
            turns = match known {
                true => FIXED_POLLS[r][place](&init, unsafe { &mut *at }, until),
                false => POLLED[r](&mut s, i, until),
            }
        },
    );
    c.ok(turns < POLLS, "polled", || format!("a loop of {} waiting for sample {i} of {n} to change never saw the change an interrupt made after {when} of {n2} instructions", NAMES[r]))?;
    c.cov("polled");
    if n1 + n2 >= 20 {
        c.nontrivial();
    }
    c.sample(|| format!("{}: {n1} instructions; polled for {n2}", what()));
    Ok(())
}

fn c45(c: &mut Ctx) -> R {
    if c.case % 3 == 0 {
        accesses(c)
    } else {
        reentrant(c)
    }
}
