//! C01-C07: buffer views, interpolated reads, delay lines.
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::errors::MemSliceError::*;
use embedded_audio_tools::float::AdditionalF32Ext;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            cases: 24_000,
            systematic: 64,
            miri: 26,
            serial: false,
            rule: "A case is a random history of safe operations (views, sub-views, checked/wrapped/interpolated reads and writes, delay lines, combs, all-passes, wavetable oscillators, rectangle and sine lookups, buffer swaps) with in-range and extreme arguments over several buffers of different lengths, each surrounded by canaries and guard pages or sanitizer red zones. Non-trivial: it contained at least one extreme argument or swap and at least one access that reached a buffer; distinct by its sequence of operations and arguments.",
            required: &["view ops", "delay ops", "swap to shorter", "swap to longer", "swap to empty", "extreme index", "sub-view ops", "wavetable ops", "lookup ops", "end of the sine table", "huge buffer", "guard page", "oob refused", "tap on extreme offset"],
        },
        Prop {
            id: "C02",
            run: c02,
            cases: 160_000,
            systematic: 200,
            miri: 24,
            serial: false,
            rule: "A case is a random history of element reads, writes, view copies, retargetings and direct buffer writes over up to three buffers, compared after every operation with an array model. Non-trivial: at least one accepted write, one accepted read and one refusal; distinct by operations, indices and values.",
            required: &["read hit", "read refused", "write hit", "write refused", "copy of a view", "retarget", "retarget to a part", "null refused", "first element", "last element", "index == len", "large buffer", "readonly view", "big value bits", "giant buffer"],
        },
        Prop {
            id: "C03",
            run: c03,
            cases: 800_000,
            systematic: 2_000,
            miri: 40,
            serial: false,
            rule: "A case makes a chain of nested sub-view requests (offsets and lengths around the parent's bounds and extreme ones) and compares grant, pointer, length and aliasing of each with a model. Non-trivial: at least one granted and one refused request; distinct by lengths and requests.",
            required: &["granted", "exact fit granted", "full view granted", "empty window granted", "index refused", "length refused", "nested depth 3", "huge number", "write aliases", "wrapped inside", "readonly", "giant buffer"],
        },
        Prop {
            id: "C04",
            run: c04,
            cases: 300_000,
            systematic: 300,
            miri: 40,
            serial: false,
            rule: "A case reads one buffer (every length 1-300 systematically, then random) at many signed indices, single and four at a time, against the Euclidean remainder. Non-trivial: the set of indices includes negative, beyond-length and extreme ones; distinct by length, contents and indices.",
            required: &["negative", "beyond", "inside", "extreme", "four straddles", "four inside", "length below four", "length 1", "large buffer", "giant buffer"],
        },
        Prop {
            id: "C05",
            run: c05,
            cases: 160_000,
            systematic: 300,
            miri: 30,
            serial: false,
            rule: "A case reads one buffer (every length 1-300 systematically, then random incl. large) at many fractional positions through the checked and wrapped linear reads, against a double-precision model. Non-trivial: accepted and refused checked reads and wrapped reads outside 0..len; distinct by contents and positions.",
            required: &["checked inside", "checked last index", "checked beyond", "checked negative", "checked nan", "checked empty", "wrapped negative", "wrapped beyond", "wrapped seam", "integer position", "ulp neighbours", "large buffer", "giant buffer", "beyond 32 bits"],
        },
        Prop {
            id: "C06",
            run: c06,
            cases: 20_000,
            systematic: 300,
            miri: 4,
            serial: false,
            rule: "A case reads one buffer at several positions through the windowed, four-point and delay-line Lagrange reads, against double-precision interpolation over every window the property admits; contents are noise, sparse impulses or low-degree polynomials. Non-trivial: at least one non-integer position compared; distinct by contents, windows and positions.",
            required: &["odd window", "even window", "window 100", "window 2", "integer position", "negative position", "beyond length", "four point", "delay line", "polynomial", "impulse", "length below window", "equal contributions, large window", "window below 2", "window above 100", "giant buffer", "beyond 32 bits", "beyond 2^22"],
        },
        Prop {
            id: "C07",
            run: c07,
            cases: 16_000,
            systematic: 200,
            miri: 20,
            serial: false,
            rule: "A case is a random history of writes, advances, taps (integer, linear, Lagrange), copies and buffer swaps over one to three delay lines, compared after every call with a circular-buffer model that knows every slot. Non-trivial: the history wraps around the buffer at least once and contains a tap; distinct by lengths and operations.",
            required: &["write", "advance", "read", "tap", "tap negative", "tap extreme", "lerp tap", "lagrange tap", "wrap around", "copy", "swap to shorter", "swap to longer", "swap to same length", "swap to the same start", "swap to empty", "empty reads silence", "empty tap silence", "length 1", "fifo checked", "long line", "special value written", "marathon", "marathon beyond 2^24"],
        },
    ]
}

/// A window of samples inside a larger buffer full of decoys; views of the window are made through
/// the raw retargeting API so that nothing but the operation under test is involved.
pub struct Win {
    pub buf: Buf,
    pub off: usize,
    pub len: usize,
}
pub const DECOY: f32 = -3.25e33;
impl Win {
    pub fn new(c: &mut Ctx, data: &[f32]) -> Win {
        if c.rng.chance(1, 3) {
            let (a, b) = (c.rng.usize(9), c.rng.usize(9));
            let mut v = vec![DECOY; a];
            v.extend_from_slice(data);
            v.extend(std::iter::repeat(DECOY).take(b));
            Win { buf: Buf::new(c, &v), off: a, len: data.len() }
        } else {
            Win { buf: Buf::new(c, data), off: 0, len: data.len() }
        }
    }
    pub fn view_mut(&self) -> MemorySlice<Mutable> {
        if self.off == 0 && self.len == self.buf.len() {
            return self.buf.view_mut();
        }
        let mut v = null_mut();
        unsafe { v.change_mut_slice_unchecked(self.buf.ptr().add(self.off), self.len) };
        v
    }
    pub fn view(&self) -> MemorySlice<NonMutable> {
        if self.off == 0 && self.len == self.buf.len() {
            return self.buf.view();
        }
        let mut v = null();
        unsafe { v.change_slice_unchecked(self.buf.ptr().add(self.off), self.len) };
        v
    }
    pub fn get(&self, i: usize) -> f32 {
        assert!(i < self.len);
        self.buf.get(self.off + i)
    }
    pub fn set(&self, i: usize, v: f32) {
        assert!(i < self.len);
        self.buf.set(self.off + i, v)
    }
    /// window equals the model and nothing around it changed
    pub fn check(&self, c: &mut Ctx, model: &[f32], what: &str) -> R {
        for i in 0..self.buf.len() {
            let v = self.buf.get(i);
            c.obs.evals += 1;
            if i >= self.off && i < self.off + self.len {
                let m = model[i - self.off];
                if v.to_bits() != m.to_bits() {
                    return Err(viol("contents", format!("{what}: element {} of {} is {v:?}, expected {m:?}; {}", i - self.off, self.len, c.trace())));
                }
            } else if v != DECOY {
                return Err(viol("foreign-write", format!("{what}: sample {} outside the {}-element window became {v:?}; {}", i as i64 - self.off as i64, self.len, c.trace())));
            }
        }
        self.buf.canaries(c, what)
    }
}

pub fn rand_contents(c: &mut Ctx, len: usize) -> Vec<f32> {
    match c.rng.below(6) {
        0 => (0..len).map(|i| i as f32).collect(),
        1 => {
            let k = c.rng.usize(len);
            (0..len).map(|i| if i == k { 1.0 } else { 0.0 }).collect()
        }
        2 => {
            // distinct integers in random order
            let mut v: Vec<f32> = (0..len).map(|i| (i + 1) as f32).collect();
            for i in (1..len).rev() {
                let j = c.rng.usize(i + 1);
                v.swap(i, j);
            }
            v
        }
        _ => (0..len).map(|_| c.rng.sample()).collect(),
    }
}

/// 2^n, on a machine with fewer bits whatever power of two comes last before its highest
fn bit(n: u32) -> usize {
    1usize << n.min(usize::BITS - 1)
}

fn ext_usize(c: &mut Ctx, len: usize) -> usize {
    match c.rng.below(14) {
        0..=5 => c.rng.usize(len.max(1)),
        6 => 0,
        7 => len.wrapping_sub(1),
        8 => len,
        9 => len.wrapping_add(c.rng.usize(8)),
        10 => c.rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, u32::MAX as usize, bit(32), i32::MAX as usize, bit(62)]),
        // indices that alias small ones when multiplied by the element size or truncated
        11 => bit(usize::BITS - 2).wrapping_add(c.rng.usize(len + 4)),
        12 => (c.rng.pick(&[bit(32), bit(31), bit(16), bit(24), bit(63)])).wrapping_add(c.rng.usize(len + 4)),
        _ => c.rng.u64() as usize,
    }
}
fn is_ext(i: usize, len: usize) -> bool {
    i > len + 8
}
fn ext_isize(c: &mut Ctx, len: usize) -> isize {
    let l = len as i64;
    match c.rng.below(12) {
        0..=2 => c.rng.range(0, l - 1 + (l == 0) as i64) as isize,
        3 => c.rng.range(-3 * l - 4, 3 * l + 4) as isize,
        4 => c.rng.range(-5, 5) as isize,
        5 => (l + c.rng.range(-5, 5)) as isize,
        6 => {
            let d = c.rng.range(0, 3 * l + 6) as isize;
            isize::MAX - d
        }
        7 => {
            let d = c.rng.range(0, 3 * l + 6) as isize;
            isize::MIN + d
        }
        8 => (c.rng.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 32, -(1 << 32), 1 << 62, -(1 << 62), 1 << 30, -(1 << 30), 1 << 16, -(1 << 24)]) as isize).wrapping_add(c.rng.range(-5, 5) as isize),
        9 => (c.rng.range(-1_000_000, 1_000_000) * l.max(1) + c.rng.range(-2, 2)) as isize,
        _ => c.rng.u64() as isize,
    }
}
fn ext_f32(c: &mut Ctx, len: usize) -> f32 {
    let l = len as f64;
    match c.rng.below(12) {
        0..=2 => c.rng.f(0.0, l.max(1.0)),
        3 => c.rng.range(-2 * len as i64 - 2, 2 * len as i64 + 2) as f32,
        4 => {
            let x = (c.rng.range(-2, 2) as f64 * l) as f32;
            if c.rng.chance(1, 2) {
                next_up(x)
            } else {
                next_down(x)
            }
        }
        5 => c.rng.f(-3.0 * l - 3.0, 3.0 * l + 3.0),
        6 => c.rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, -0.0, 0.0, 1e-45, -1e-45]),
        7 => c.rng.pick(&[2147483648.0f32, -2147483648.0, 2147483520.0, -2147483904.0, 4294967296.0, 16777216.0, 16777218.0, 8388607.5, -8388607.5, 9.223372e18, -9.223372e18, 1.8446744e19]),
        8 => next_down(l as f32),
        9 => (l - 1.0) as f32 + c.rng.f(-1.0, 1.0),
        _ => c.rng.bits(),
    }
}

// ---------------------------------------------------------------------------------------------
// C01
// ---------------------------------------------------------------------------------------------

/// accumulator with an arbitrary, hostile phase
#[derive(Clone, Copy)]
struct Hostile {
    norm: f32,
    val: u32,
}
impl PhaseAccumulator for Hostile {
    type Object = Hostile;
    fn new(_: f32, _: f32) -> Hostile {
        Hostile { norm: 0.0, val: 0 }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.norm = sr
    }
    fn set_freq_unchecked(&mut self, f: f32) {
        self.norm = f
    }
    fn set_phase_shift(&mut self, s: u32) {
        self.val = s
    }
    fn next_value(&mut self) -> u32 {
        self.val
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.norm
    }
}

/// which elements of which buffer a target may touch
#[derive(Clone, Copy)]
struct Tgt {
    b: usize,
    off: usize,
    len: usize,
}

struct World {
    bufs: Vec<Buf>,
    mv: Vec<(MemorySlice<Mutable>, Tgt)>,
    rv: Vec<(MemorySlice<NonMutable>, Tgt)>,
    dl: Vec<(DelayLine, Tgt)>,
    cb: Vec<(Comb, Tgt)>,
    ap: Vec<(AllPass, Tgt)>,
    wt: Vec<(WavetableOscillator<Hostile>, Tgt)>,
    ws: Vec<(WavetableOscillator<SoftPhaseAccumulator>, Tgt)>,
}
const NONE: usize = usize::MAX;

fn w_mut(c: &mut Ctx, w: &World) -> (MemorySlice<Mutable>, Tgt) {
    match c.rng.below(8) {
        0 => (null_mut(), Tgt { b: NONE, off: 0, len: 0 }),
        1 => {
            let b = c.rng.usize(w.bufs.len());
            let mut v = null_mut();
            unsafe { v.change_mut_slice_unchecked(w.bufs[b].ptr(), 0) };
            (v, Tgt { b, off: 0, len: 0 })
        }
        2 | 3 => {
            let b = c.rng.usize(w.bufs.len());
            let n = w.bufs[b].len();
            let off = c.rng.usize(n);
            let len = c.rng.usize(n - off) + 1;
            let mut v = null_mut();
            unsafe { v.change_mut_slice_unchecked(w.bufs[b].ptr().add(off), len) };
            (v, Tgt { b, off, len })
        }
        _ => {
            let b = c.rng.usize(w.bufs.len());
            (w.bufs[b].view_mut(), Tgt { b, off: 0, len: w.bufs[b].len() })
        }
    }
}

/// the samples outside a target's window (all buffers), to detect a write that left it
fn outside(w: &World, t: Tgt) -> u64 {
    let mut h = 0u64;
    for (k, b) in w.bufs.iter().enumerate() {
        for i in 0..b.len() {
            if k == t.b && i >= t.off && i < t.off + t.len {
                continue;
            }
            h = h.rotate_left(7) ^ (b.get(i).to_bits() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
    h
}

fn inside(w: &World, t: Tgt, v: f32) -> bool {
    t.b != NONE && (t.off..t.off + t.len).any(|i| w.bufs[t.b].get(i).to_bits() == v.to_bits())
}

fn direct_read(c: &mut Ctx, w: &World, t: Tgt, v: f32, what: &str) -> R {
    c.ev(1);
    if is_canary(v) || !inside(w, t, v) {
        return Err(viol("foreign-read", format!("{what} returned {v:?}, which is not a sample of its {}-element buffer; {}", t.len, c.trace())));
    }
    Ok(())
}

fn c01(c: &mut Ctx) -> R {
    if !c.small() && c.case < 64 {
        return c01_huge(c);
    }
    let nb = 2 + c.rng.usize(3);
    let maxlen = if c.small() { 40 } else { 300 };
    let mut w = World { bufs: vec![], mv: vec![], rv: vec![], dl: vec![], cb: vec![], ap: vec![], wt: vec![], ws: vec![] };
    let mut tag = 1.0f32;
    for _ in 0..nb {
        let n = c.rng.len(maxlen);
        let d: Vec<f32> = (0..n)
            .map(|_| {
                tag += 1.0;
                tag
            })
            .collect();
        let b = Buf::new(c, &d);
        w.bufs.push(b);
        c.sig(n as u64);
    }
    if w.bufs.iter().any(|b| b.guarded()) {
        c.cov("guard page");
    }
    let ops = if c.small() { 24 } else { 60 };
    let (mut ext, mut hit) = (false, false);
    for step in 0..ops {
        let op = c.rng.below(24);
        c.sig(op);
        match op {
            // new objects
            0 => {
                let v = w_mut(c, &w);
                w.mv.push(v)
            }
            1 => {
                let (v, t) = w_mut(c, &w);
                let p = v.as_slice() as *const f32;
                let mut r = null();
                unsafe { r.change_slice_unchecked(p, v.len()) };
                w.rv.push((r, t));
            }
            2 => {
                let (v, t) = w_mut(c, &w);
                match c.rng.below(3) {
                    0 => w.dl.push((DelayLine::new(v), t)),
                    1 => w.cb.push((Comb::new(v), t)),
                    _ => w.ap.push((AllPass::new(v), t)),
                }
            }
            3 => {
                let (v, t) = w_mut(c, &w);
                if c.rng.chance(1, 2) {
                    let mut r = null();
                    unsafe { r.change_slice_unchecked(v.as_slice() as *const f32, v.len()) };
                    w.wt.push((WavetableOscillator::new(r, Hostile { norm: 0.0, val: 0 }), t));
                } else {
                    let mut r = null();
                    unsafe { r.change_slice_unchecked(v.as_slice() as *const f32, v.len()) };
                    let (f, sr) = (c.rng.bits(), c.rng.bits());
                    let (f, sr) = if c.rng.chance(1, 3) { (f, sr) } else { (c.rng.f(0.0, 24000.0), 48000.0) };
                    w.ws.push((WavetableOscillator::new(r, SoftPhaseAccumulator::new(f, sr)), t));
                }
            }
            // sub-views
            4 | 5 if !w.mv.is_empty() => {
                let k = c.rng.usize(w.mv.len());
                let (v, t) = w.mv[k];
                let (o, l) = (ext_usize(c, t.len), ext_usize(c, t.len));
                let l = if c.rng.chance(1, 2) { t.len.wrapping_sub(o).wrapping_add(c.rng.usize(3)).wrapping_sub(1) } else { l };
                ext |= is_ext(o, t.len) || is_ext(l, t.len);
                c.note(|| format!("view[{}].get_sub_slice({o},{l})", t.len));
                c.sig(o as u64);
                c.sig(l as u64);
                c.cov("sub-view ops");
                let r = c.may_panic(|| v.get_sub_slice(o, l));
                if let Some(Ok(s)) = r {
                    c.ev(1);
                    let base = w_ptr(&w, t);
                    let p = s.as_slice() as *const f32 as usize;
                    let lo = base as usize;
                    let hi = lo + 4 * t.len;
                    let end = p.checked_add(s.len().checked_mul(4).unwrap_or(usize::MAX)).unwrap_or(usize::MAX);
                    if s.len() > 0 && (p < lo || end > hi) {
                        return Err(viol("sub-view-escapes", format!("sub-view ({o},{l}) of a {}-element buffer covers elements {}..{}", t.len, (p as i64 - lo as i64) / 4, (end as i64 - lo as i64) / 4)));
                    }
                    let off = if s.len() > 0 { t.off + (p - lo) / 4 } else { t.off };
                    w.mv.push((s, Tgt { b: t.b, off, len: s.len() }));
                    hit = true;
                } else {
                    c.cov("oob refused");
                }
            }
            // retarget a live object
            6 if !w.mv.is_empty() => {
                let k = c.rng.usize(w.mv.len());
                let (v, t) = w_mut(c, &w);
                unsafe { w.mv[k].0.change_mut_slice_unchecked(v.as_slice() as *const f32 as *mut f32, v.len()) };
                w.mv[k].1 = t;
            }
            7 | 8 => {
                let (v, t) = w_mut(c, &w);
                let old;
                match c.rng.below(3) {
                    0 if !w.dl.is_empty() => {
                        let k = c.rng.usize(w.dl.len());
                        old = w.dl[k].1.len;
                        c.note(|| format!("delay[{k}].change_buffer({} -> {})", old, t.len));
                        w.dl[k].0.change_buffer(v);
                        w.dl[k].1 = t;
                    }
                    1 if !w.cb.is_empty() => {
                        let k = c.rng.usize(w.cb.len());
                        old = w.cb[k].1.len;
                        c.note(|| format!("comb[{k}].change_buffer({} -> {})", old, t.len));
                        w.cb[k].0.change_buffer(v);
                        w.cb[k].1 = t;
                    }
                    2 if !w.ap.is_empty() => {
                        let k = c.rng.usize(w.ap.len());
                        old = w.ap[k].1.len;
                        c.note(|| format!("allpass[{k}].change_buffer({} -> {})", old, t.len));
                        w.ap[k].0.change_buffer(v);
                        w.ap[k].1 = t;
                    }
                    _ => continue,
                }
                ext = true;
                c.sig(t.len as u64);
                c.cov(if t.len == 0 {
                    "swap to empty"
                } else if t.len < old {
                    "swap to shorter"
                } else {
                    "swap to longer"
                });
            }
            // reads and writes through views
            9..=13 if !w.mv.is_empty() || !w.rv.is_empty() => {
                c.cov("view ops");
                let ro = w.mv.is_empty() || (!w.rv.is_empty() && c.rng.chance(1, 3));
                if ro {
                    let k = c.rng.usize(w.rv.len());
                    let (v, t) = w.rv[k];
                    view_reads(c, &w, v, t, &mut ext, &mut hit)?;
                } else {
                    let k = c.rng.usize(w.mv.len());
                    let (mut v, t) = w.mv[k];
                    if c.rng.chance(1, 3) {
                        let i = ext_usize(c, t.len);
                        ext |= is_ext(i, t.len);
                        if is_ext(i, t.len) {
                            c.cov("extreme index");
                        }
                        tag += 1.0;
                        let x = tag;
                        c.note(|| format!("view[{}].assign({i})", t.len));
                        c.sig(i as u64);
                        let h = outside(&w, t);
                        let r = c.may_panic(|| v.assign(i, x));
                        match r {
                            Some(Ok(())) => hit = true,
                            _ => c.cov("oob refused"),
                        }
                        unchanged(c, &w, t, h, "assign")?;
                    } else {
                        view_reads(c, &w, v, t, &mut ext, &mut hit)?;
                    }
                }
            }
            // delay lines, combs, all-passes
            14..=17 if !w.dl.is_empty() => {
                let k = c.rng.usize(w.dl.len());
                let t = w.dl[k].1;
                c.cov("delay ops");
                let n = 1 + c.rng.usize(if c.small() { 4 } else { 40 });
                let h = outside(&w, t);
                for _ in 0..n {
                    let d = &mut w.dl[k].0;
                    match c.rng.below(7) {
                        0 => {
                            tag += 1.0;
                            let x = tag;
                            c.may_panic(|| d.write_and_advance(x));
                            hit |= t.len > 0;
                        }
                        1 => {
                            c.may_panic(|| d.advance());
                        }
                        2 => {
                            let v = c.may_panic(|| d.read());
                            if let Some(v) = v {
                                if t.len > 0 {
                                    direct_read(c, &w, t, v, "delay line read")?;
                                }
                            }
                        }
                        3 => {
                            let o = ext_isize(c, t.len);
                            ext = true;
                            c.note(|| format!("delay[{}].read_wrapped_at({o})", t.len));
                            c.sig(o as u64);
                            c.cov("tap on extreme offset");
                            let v = c.may_panic(|| d.read_wrapped_at(o));
                            if let Some(v) = v {
                                if t.len > 0 {
                                    direct_read(c, &w, t, v, "delay line tap")?;
                                }
                            }
                        }
                        4 => {
                            let o = ext_f32(c, t.len);
                            ext = true;
                            c.note(|| format!("delay[{}].read_lerp_wrapped_at({o:?})", t.len));
                            c.sigf(o);
                            let v = c.may_panic(|| d.read_lerp_wrapped_at(o));
                            finite_read(c, &w, t, o, v, "linear tap")?;
                        }
                        5 => {
                            let o = ext_f32(c, t.len);
                            ext = true;
                            c.note(|| format!("delay[{}].read_lagrange_wrapped_at({o:?})", t.len));
                            c.sigf(o);
                            let v = c.may_panic(|| d.read_lagrange_wrapped_at(o));
                            finite_read(c, &w, t, o, v, "lagrange tap")?;
                        }
                        _ => {
                            let s = d.get_ptr_slice_mut();
                            let (p, l) = (s as *mut f32 as usize, d.len());
                            c.ev(1);
                            if l > t.len || (l > 0 && p != w_ptr(&w, t) as usize) {
                                return Err(viol("foreign-slice", format!("get_ptr_slice_mut is {l} elements at offset {}, buffer has {}", p as i64 - w_ptr(&w, t) as i64, t.len)));
                            }
                        }
                    }
                }
                unchanged(c, &w, t, h, "delay line")?;
            }
            18 | 19 => {
                let n = 1 + c.rng.usize(if c.small() { 6 } else { 60 });
                if c.rng.chance(1, 2) && !w.cb.is_empty() {
                    let k = c.rng.usize(w.cb.len());
                    let t = w.cb[k].1;
                    let h = outside(&w, t);
                    let (f, d) = (c.rng.bits(), c.rng.f(0.0, 1.0));
                    w.cb[k].0.set_feedback(if c.rng.chance(1, 4) { f } else { 0.4 });
                    w.cb[k].0.set_dampening(d);
                    for _ in 0..n {
                        let x = c.rng.sample();
                        let o = &mut w.cb[k].0;
                        c.may_panic(|| o.tick(x));
                    }
                    w.cb[k].0.set_feedback(0.4);
                    c.cov("comb ops");
                    hit |= t.len > 0;
                    unchanged(c, &w, t, h, "comb")?;
                    settle(&w, t);
                } else if !w.ap.is_empty() {
                    let k = c.rng.usize(w.ap.len());
                    let t = w.ap[k].1;
                    let h = outside(&w, t);
                    for _ in 0..n {
                        let x = c.rng.sample();
                        let o = &mut w.ap[k].0;
                        c.may_panic(|| o.tick(x));
                    }
                    c.cov("all-pass ops");
                    hit |= t.len > 0;
                    unchanged(c, &w, t, h, "all-pass")?;
                    settle(&w, t);
                }
            }
            20 | 21 if !w.wt.is_empty() => {
                let k = c.rng.usize(w.wt.len());
                let t = w.wt[k].1;
                for _ in 0..1 + c.rng.usize(12) {
                    let p = match c.rng.below(6) {
                        0 => c.rng.f(0.0, 1.0),
                        1 => c.rng.pick(&[0.0f32, 1.0, next_down(1.0), -0.0, 0.5, 2.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX]),
                        2 => next_down(1.0 - c.rng.below(40) as f32 * f32::EPSILON),
                        3 => c.rng.f(-2.0, 3.0),
                        4 => (c.rng.usize(t.len + 2) as f64 / t.len.max(1) as f64) as f32,
                        _ => c.rng.bits(),
                    };
                    c.note(|| format!("wavetable[{}].next() at phase {p:?}", t.len));
                    c.sigf(p);
                    ext = true;
                    hit |= t.len > 0;
                    c.cov("wavetable ops");
                    w.wt[k].0.set_freq_unchecked(p);
                    let o = &mut w.wt[k].0;
                    let v = c.may_panic(|| o.next());
                    finite_read(c, &w, t, p * t.len as f32, v, "wavetable read")?;
                }
            }
            22 if !w.ws.is_empty() => {
                let k = c.rng.usize(w.ws.len());
                let t = w.ws[k].1;
                let n = if c.small() { 8 } else { 200 };
                if c.rng.chance(1, 3) {
                    let s = c.rng.bits();
                    w.ws[k].0.set_phase_shift_unchecked(s);
                }
                if c.rng.chance(1, 3) {
                    let s = c.rng.bits();
                    w.ws[k].0.set_freq_unchecked(s);
                }
                c.note(|| format!("soft wavetable[{}].next() x{n}", t.len));
                for _ in 0..n {
                    let o = &mut w.ws[k].0;
                    let v = c.may_panic(|| o.next());
                    finite_read(c, &w, t, 0.0, v, "wavetable read")?;
                }
                c.cov("wavetable ops");
                hit |= t.len > 0;
            }
            _ => {
                for _ in 0..(if c.small() { 2 } else { 24 }) {
                    let x = match c.rng.below(7) {
                        0 => c.rng.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45]),
                        1 => {
                            let b = c.rng.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0]);
                            let mut b = b;
                            let up = c.rng.chance(1, 2);
                            for _ in 0..c.rng.below(4) {
                                b = if up { next_up(b) } else { next_down(b) };
                            }
                            b
                        }
                        2 => c.rng.bits(),
                        3 => (c.rng.usize(4 * 5074 + 1) as f64 / (4.0 * 5074.0)) as f32,
                        _ => c.rng.f(-0.1, 1.1),
                    };
                    c.note(|| format!("lookup({x:?})"));
                    let a = c.may_panic(|| x.lookup_bl_rect());
                    if !c.small() || step % 8 == 0 {
                        // the ends of the sine table lie at odd quarter turns, give or take a rounding
                        let mut x = x;
                        if c.rng.chance(1, 3) {
                            let k = if c.small() { c.rng.range(-2, 2) } else { c.rng.range(-70, 70) };
                            x = ((2 * k + 1) as f64 * std::f64::consts::FRAC_PI_2) as f32;
                            if c.rng.chance(1, 4) {
                                x = if c.rng.chance(1, 2) { next_up(x) } else { next_down(x) };
                            }
                            c.cov("end of the sine table");
                            c.note(|| format!("lookup_sin({x:?})"));
                        }
                        c.may_panic(|| x.lookup_sin());
                    }
                    c.cov("lookup ops");
                    c.ev(1);
                    // the table holds finite samples up to 1: anything else came from elsewhere
                    if let Some(a) = a {
                        if !x.is_nan() && !(a.abs() <= 1.0) {
                            return Err(viol("foreign-read", format!("lookup_bl_rect({x:?}) = {a:?}, outside anything its table holds")));
                        }
                    }
                }
            }
        }
        if step % 8 == 7 || step + 1 == ops {
            for k in 0..w.bufs.len() {
                w.bufs[k].canaries(c, "memory around a buffer")?;
            }
        }
    }
    if ext && hit {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| t);
    }
    Ok(())
}

fn w_ptr(w: &World, t: Tgt) -> *const f32 {
    if t.b == NONE {
        std::ptr::null()
    } else {
        unsafe { w.bufs[t.b].ptr().add(t.off) }
    }
}

fn unchanged(c: &mut Ctx, w: &World, t: Tgt, h: u64, what: &str) -> R {
    c.ev(1);
    if outside(w, t) != h {
        return Err(viol("foreign-write", format!("{what} on a {}-element buffer changed samples outside it; {}", t.len, c.trace())));
    }
    Ok(())
}
/// keep filter-written samples finite so that later reads stay distinguishable from foreign memory
fn settle(w: &World, t: Tgt) {
    if t.b == NONE {
        return;
    }
    for i in t.off..t.off + t.len {
        let v = w.bufs[t.b].get(i);
        if !(v.abs() < 1e6) {
            w.bufs[t.b].set(i, i as f32);
        }
    }
}
/// interpolated read of finite samples at a moderate position: a NaN can only come from elsewhere
fn finite_read(c: &mut Ctx, w: &World, t: Tgt, pos: f32, v: Option<f32>, what: &str) -> R {
    c.ev(1);
    let Some(v) = v else { return Ok(()) };
    if t.len == 0 || !(pos.abs() < 1e6) {
        return Ok(());
    }
    if !v.is_finite() && (t.off..t.off + t.len).all(|i| w.bufs[t.b].get(i).is_finite()) {
        return Err(viol("foreign-read", format!("{what} at {pos:?} of a {}-element buffer of finite samples returned {v:?}; {}", t.len, c.trace())));
    }
    Ok(())
}

fn view_reads<V: Reads>(c: &mut Ctx, w: &World, v: V, t: Tgt, ext: &mut bool, hit: &mut bool) -> R {
    *hit |= t.len > 0;
    match c.rng.below(7) {
        0 => {
            let i = ext_usize(c, t.len);
            *ext |= is_ext(i, t.len);
            if is_ext(i, t.len) {
                c.cov("extreme index");
            }
            c.note(|| format!("view[{}].get({i})", t.len));
            c.sig(i as u64);
            let r = c.may_panic(|| v.get_(i));
            match r {
                Some(Ok(x)) => direct_read(c, w, t, x, "checked read")?,
                _ => c.cov("oob refused"),
            }
        }
        1 => {
            let i = ext_isize(c, t.len);
            *ext = true;
            c.note(|| format!("view[{}].get_wrapped({i})", t.len));
            c.sig(i as u64);
            let r = c.may_panic(|| v.get_wrapped_(i));
            if let Some(x) = r {
                direct_read(c, w, t, x, "wrapped read")?;
            }
        }
        2 => {
            let i = ext_isize(c, t.len);
            *ext = true;
            c.note(|| format!("view[{}].get_slice_of_four_wrapped({i})", t.len));
            c.sig(i as u64);
            let r = c.may_panic(|| v.four_(i));
            if let Some(x) = r {
                for x in x {
                    direct_read(c, w, t, x, "four-sample read")?;
                }
            }
        }
        3 => {
            let p = ext_f32(c, t.len);
            *ext = true;
            c.note(|| format!("view[{}].lerp({p:?})", t.len));
            c.sigf(p);
            let r = c.may_panic(|| v.lerp_(p));
            match r {
                Some(Ok(x)) => finite_read(c, w, t, p, Some(x), "checked linear read")?,
                _ => c.cov("oob refused"),
            }
        }
        4 => {
            let p = ext_f32(c, t.len);
            *ext = true;
            c.note(|| format!("view[{}].lerp_wrapped({p:?})", t.len));
            c.sigf(p);
            let r = c.may_panic(|| v.lerp_wrapped_(p));
            finite_read(c, w, t, p, r, "wrapped linear read")?;
        }
        5 => {
            let p = ext_f32(c, t.len);
            let win = match c.rng.below(5) {
                0 => ext_usize(c, 100),
                1 => c.rng.pick(&[0usize, 1, 2, 99, 100, 101, 102, 200, 1 << 20]),
                _ => c.rng.usize(12),
            };
            let win = if c.small() { win.min(1 << 20) } else { win };
            *ext = true;
            c.note(|| format!("view[{}].lagrange_wrapped({p:?}, {win})", t.len));
            c.sigf(p);
            c.sig(win as u64);
            let r = c.may_panic(|| v.lag_(p, win));
            if win < 30 {
                finite_read(c, w, t, p, r, "windowed lagrange read")?;
            }
        }
        _ => {
            let p = ext_f32(c, t.len);
            *ext = true;
            c.note(|| format!("view[{}].lagrange_four_points_wrapped({p:?})", t.len));
            c.sigf(p);
            let r = c.may_panic(|| v.lag4_(p));
            finite_read(c, w, t, p, r, "four-point lagrange read")?;
        }
    }
    Ok(())
}

/// the read operations both kinds of view offer, nameable from generic code
pub trait Reads: Copy {
    fn get_(&self, i: usize) -> Result<f32, embedded_audio_tools::errors::MemSliceError>;
    fn get_wrapped_(&self, i: isize) -> f32;
    fn four_(&self, i: isize) -> [f32; 4];
    fn lerp_(&self, p: f32) -> Result<f32, embedded_audio_tools::errors::MemSliceError>;
    fn lerp_wrapped_(&self, p: f32) -> f32;
    fn lag_(&self, p: f32, w: usize) -> f32;
    fn lag4_(&self, p: f32) -> f32;
    fn sub_(&self, o: usize, l: usize) -> Result<Self, embedded_audio_tools::errors::MemSliceError>;
    fn raw_(&self) -> *const [f32];
    fn len_(&self) -> usize;
    unsafe fn getwu_(&self, i: isize) -> f32;
    unsafe fn lerpu_(&self, p: f32) -> f32;
}
macro_rules! reads {
    ($m:ty) => {
        impl Reads for MemorySlice<$m> {
            fn get_(&self, i: usize) -> Result<f32, embedded_audio_tools::errors::MemSliceError> {
                self.get(i)
            }
            fn get_wrapped_(&self, i: isize) -> f32 {
                self.get_wrapped(i)
            }
            fn four_(&self, i: isize) -> [f32; 4] {
                self.get_slice_of_four_wrapped(i)
            }
            fn lerp_(&self, p: f32) -> Result<f32, embedded_audio_tools::errors::MemSliceError> {
                self.lerp(p)
            }
            fn lerp_wrapped_(&self, p: f32) -> f32 {
                self.lerp_wrapped(p)
            }
            fn lag_(&self, p: f32, w: usize) -> f32 {
                self.lagrange_wrapped(p, w)
            }
            fn lag4_(&self, p: f32) -> f32 {
                self.lagrange_four_points_wrapped(p)
            }
            fn sub_(&self, o: usize, l: usize) -> Result<Self, embedded_audio_tools::errors::MemSliceError> {
                self.get_sub_slice(o, l)
            }
            fn raw_(&self) -> *const [f32] {
                self.as_slice()
            }
            fn len_(&self) -> usize {
                self.len()
            }
            unsafe fn getwu_(&self, i: isize) -> f32 {
                self.get_wrapped_unchecked(i)
            }
            unsafe fn lerpu_(&self, p: f32) -> f32 {
                self.lerp_unchecked(p)
            }
        }
    };
}
reads!(Mutable);
reads!(NonMutable);
/// buffers so long that positions are no longer representable in f32: the boundary is where rounding bites
#[cfg(not(miri))]
fn c01_huge(c: &mut Ctx) -> R {
    let len = (1usize << 24) + c.case as usize % 16 - (c.case as usize / 16) * 3;
    c.cov("huge buffer");
    c.cov("guard page");
    let b = Buf::huge(len).expect("harness: mmap");
    b.set(len - 1, 1.0);
    let v = b.view();
    c.sig(len as u64);
    let l = len as f32;
    let mut ps = vec![l, next_down(l), next_up(l), l - 1.0, l - 2.0, next_down(next_down(l)), 16777216.0, 16777215.0, 16777217.0, 16777218.0, 33554432.0, -1.0, -0.5, -1e-9, -l, next_up(-l)];
    for _ in 0..64 {
        ps.push(l - c.rng.range(-20, 20) as f32);
        ps.push(ext_f32(c, len));
    }
    let mut d = DelayLine::new(b.view_mut());
    let mut o = WavetableOscillator::new(v, Hostile { norm: 0.0, val: 0 });
    for p in ps {
        c.note(|| format!("huge[{len}] reads at {p:?}"));
        c.ev(6);
        c.may_panic(|| v.lerp(p));
        c.may_panic(|| v.lerp_wrapped(p));
        c.may_panic(|| v.lagrange_wrapped(p, 5));
        c.may_panic(|| v.lagrange_four_points_wrapped(p));
        c.may_panic(|| d.read_lerp_wrapped_at(p));
        c.may_panic(|| d.read_lagrange_wrapped_at(p));
        let q = next_down(1.0 - c.rng.below(3) as f32 * f32::EPSILON);
        o.set_freq_unchecked(if p > 0.0 && p <= l { p / l } else { q });
        c.may_panic(|| o.next());
    }
    c.cov("extreme index");
    c.nontrivial();
    c.may_panic(|| d.write_and_advance(1.0));
    Ok(())
}
#[cfg(miri)]
fn c01_huge(_: &mut Ctx) -> R {
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C02
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
enum AnyView {
    M(MemorySlice<Mutable>),
    N(MemorySlice<NonMutable>),
}

fn c02_len(c: &mut Ctx) -> usize {
    if c.small() {
        return 1 + c.rng.usize(20);
    }
    if c.case < 200 {
        return 1 + c.case as usize % 100;
    }
    if c.rng.chance(1, 200) {
        return 60_000 + c.rng.usize(20_000);
    }
    c.rng.len(4096)
}

fn any_value(c: &mut Ctx) -> f32 {
    let v = match c.rng.below(8) {
        0 | 1 => c.rng.bits(),
        2 => weird(c),
        _ => c.rng.sample(),
    };
    if is_canary(v) || v == DECOY {
        1.5
    } else {
        v
    }
}

/// values a buffer must carry unchanged although arithmetic would not: signed zero, subnormals, tiny,
/// huge, infinite and not-a-number (payload included)
fn weird(c: &mut Ctx) -> f32 {
    match c.rng.below(9) {
        0 => -0.0,
        1 => 0.0,
        2 => f32::from_bits(1 + c.rng.u32() % 0x7f_ffff),
        3 => -f32::from_bits(1 + c.rng.u32() % 0x7f_ffff),
        4 => c.rng.logf(1e-38, 1e-6) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 },
        5 => c.rng.logf(1e6, 3e38) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 },
        6 => c.rng.pick(&[f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY]),
        7 => f32::from_bits(0x7fc0_0000 | (c.rng.u32() & 0x803f_ffff)),
        _ => c.rng.logf(1e-38, 3e38),
    }
}

fn c02(c: &mut Ctx) -> R {
    #[cfg(not(miri))]
    if c.case % 1000 == 999 {
        return crate::giant::run(c);
    }
    let nb = 1 + c.rng.usize(3);
    let mut wins = vec![];
    let mut model: Vec<Vec<f32>> = vec![];
    for _ in 0..nb {
        let n = c02_len(c);
        let d: Vec<f32> = (0..n).map(|_| any_value(c)).collect();
        wins.push(Win::new(c, &d));
        model.push(d);
        c.sig(n as u64);
        if n > 50_000 {
            c.cov("large buffer");
        }
    }
    let total: usize = model.iter().map(|m| m.len()).sum();
    // (view, target) target NONE = null
    let mut views: Vec<(AnyView, usize)> = vec![(AnyView::M(wins[0].view_mut()), 0)];
    let ops = if c.small() { 30 } else { 80 };
    let (mut w_hit, mut r_hit, mut refused) = (false, false, false);
    for step in 0..ops {
        let k = c.rng.usize(views.len());
        let (_, t) = views[k];
        let len = if t == NONE { 0 } else { model[t].len() };
        let op = c.rng.below(12);
        c.sig(op);
        let mut wrote = None;
        match op {
            0..=3 => {
                let i = ext_usize(c, len);
                c.sig(i as u64);
                c.note(|| format!("view{k}[{len}].get({i})"));
                let r = match &views[k].0 {
                    AnyView::M(v) => v.get(i),
                    AnyView::N(v) => v.get(i),
                };
                c.ev(1);
                match r {
                    Ok(x) => {
                        if i >= len {
                            return Err(viol("read-accepted", format!("get({i}) on length {len} returned Ok({x:?}); {}", c.trace())));
                        }
                        if x.to_bits() != model[t][i].to_bits() {
                            return Err(viol("read-value", format!("get({i}) on length {len} returned {x:?}, element holds {:?}; {}", model[t][i], c.trace())));
                        }
                        r_hit = true;
                        c.cov("read hit");
                    }
                    Err(e) => {
                        if i < len || e != IndexOutOfBound {
                            return Err(viol("read-refused", format!("get({i}) on length {len} returned {e:?}; {}", c.trace())));
                        }
                        refused = true;
                        c.cov("read refused");
                        if t == NONE {
                            c.cov("null refused");
                        }
                    }
                }
                if i < len {
                    let u = unsafe {
                        match &views[k].0 {
                            AnyView::M(v) => v.get_unchecked(i),
                            AnyView::N(v) => v.get_unchecked(i),
                        }
                    };
                    c.ok(u.to_bits() == model[t][i].to_bits(), "unchecked-read", || format!("get_unchecked({i}) on length {len} returned {u:?}"))?;
                    if i == 0 {
                        c.cov("first element");
                    }
                    if i + 1 == len {
                        c.cov("last element");
                    }
                } else if i == len {
                    c.cov("index == len");
                }
            }
            4..=7 => {
                let AnyView::M(mut v) = views[k].0 else { continue };
                let i = ext_usize(c, len);
                let x = any_value(c);
                if x.to_bits() > 0x7f80_0000 {
                    c.cov("big value bits");
                }
                c.sig(i as u64);
                c.note(|| format!("view{k}[{len}].assign({i}, {x:?})"));
                let unchecked = i < len && c.rng.chance(1, 5);
                let r = if unchecked {
                    unsafe { v.assign_unchecked(i, x) };
                    Ok(())
                } else {
                    v.assign(i, x)
                };
                c.ev(1);
                match r {
                    Ok(()) => {
                        if i >= len {
                            return Err(viol("write-accepted", format!("assign({i}) on length {len} returned Ok; {}", c.trace())));
                        }
                        model[t][i] = x;
                        wrote = Some((t, i));
                        w_hit = true;
                        c.cov("write hit");
                    }
                    Err(e) => {
                        if i < len || e != IndexOutOfBound {
                            return Err(viol("write-refused", format!("assign({i}) on length {len} returned {e:?}; {}", c.trace())));
                        }
                        refused = true;
                        c.cov("write refused");
                        if t == NONE {
                            c.cov("null refused");
                        }
                    }
                }
            }
            8 => {
                let v = views[k];
                if views.len() < 12 {
                    views.push(v);
                }
                c.cov("copy of a view");
            }
            9 => {
                let t2 = if c.rng.chance(1, 6) { NONE } else { c.rng.usize(nb) };
                let (p, l) = if t2 == NONE { (std::ptr::null_mut(), 0) } else { (unsafe { wins[t2].buf.ptr().add(wins[t2].off) }, wins[t2].len) };
                c.note(|| format!("view{k} -> buffer {t2} [{l}]"));
                match &mut views[k].0 {
                    AnyView::M(v) => unsafe {
                        if c.rng.chance(1, 2) {
                            v.change_mut_slice_unchecked(p, l)
                        } else {
                            v.change_slice_unchecked(p, l)
                        }
                    },
                    AnyView::N(v) => unsafe { v.change_slice_unchecked(p, l) },
                }
                views[k].1 = t2;
                let (rp, rl, sl) = match &views[k].0 {
                    AnyView::M(v) => (v.as_slice() as *const f32 as usize, v.len(), v.as_slice().len()),
                    AnyView::N(v) => (v.as_slice() as *const f32 as usize, v.len(), v.as_slice().len()),
                };
                let bad = rl != l || sl != l || (l > 0 && rp != p as usize);
                c.ok(!bad, "retarget", || format!("view retargeted to {l} elements reports {rl}/{sl} elements, pointer offset {}", rp as i64 - p as i64))?;
                c.cov("retarget");
                // a copy wandering over parts of the same buffer: same start, same length, same end, nothing
                if l > 0 {
                    let mut v = views[k].0;
                    let (mut o, mut m) = (0usize, l);
                    for _ in 0..1 + c.rng.usize(4) {
                        match c.rng.below(5) {
                            0 => m = c.rng.usize(l - o + 1),
                            1 => o = c.rng.usize(l - m + 1),
                            2 => {
                                o = c.rng.usize(l);
                                m = l - o;
                            }
                            3 => {
                                o = c.rng.usize(l);
                                m = c.rng.usize(l - o + 1);
                            }
                            _ => {
                                o = 0;
                                m = l - c.rng.usize(2.min(l));
                            }
                        }
                        let q = unsafe { p.add(o) };
                        match &mut v {
                            AnyView::M(v) => unsafe {
                                if c.rng.chance(1, 2) {
                                    v.change_mut_slice_unchecked(q, m)
                                } else {
                                    v.change_slice_unchecked(q, m)
                                }
                            },
                            AnyView::N(v) => unsafe { v.change_slice_unchecked(q, m) },
                        }
                        let (rp, rl, sl, last, next) = match &v {
                            AnyView::M(v) => (v.as_slice() as *const f32 as usize, v.len(), v.as_slice().len(), v.get(m.max(1) - 1).ok(), v.get(m).ok()),
                            AnyView::N(v) => (v.as_slice() as *const f32 as usize, v.len(), v.as_slice().len(), v.get(m.max(1) - 1).ok(), v.get(m).ok()),
                        };
                        let want = if m > 0 { Some(model[t2][o + m - 1].to_bits()) } else { None };
                        let bad = rl != m || sl != m || (m > 0 && rp != q as usize) || next.is_some() || last.map(f32::to_bits) != want;
                        c.ok(!bad, "retarget-part", || format!("view of {l} elements retargeted to {m} elements from element {o} on reports {rl}/{sl} elements from element {}; its last element reads {last:?}, the one after {next:?}", (rp as i64 - p as i64) / 4))?;
                        c.cov("retarget to a part");
                    }
                }
            }
            10 => {
                let t2 = c.rng.usize(nb);
                let v = match c.rng.below(3) {
                    0 => {
                        c.cov("readonly view");
                        (AnyView::N(wins[t2].view()), t2)
                    }
                    1 => (AnyView::M(wins[t2].view_mut()), t2),
                    _ => (if c.rng.chance(1, 2) { AnyView::M(null_mut()) } else { AnyView::N(null()) }, NONE),
                };
                let l = match &v.0 {
                    AnyView::M(v) => v.len(),
                    AnyView::N(v) => v.len(),
                };
                let want = if v.1 == NONE { 0 } else { model[v.1].len() };
                c.ok(l == want, "length", || format!("new view reports length {l}, buffer has {want}"))?;
                if views.len() < 12 {
                    views.push(v);
                } else {
                    views[k] = v;
                }
            }
            _ => {
                // direct write to the buffer: every view must see it
                let t2 = c.rng.usize(nb);
                let i = c.rng.usize(model[t2].len());
                let x = any_value(c);
                wins[t2].set(i, x);
                model[t2][i] = x;
            }
        }
        if let Some((t, i)) = wrote {
            // neighbourhood at once, everything below
            for j in i.saturating_sub(2)..(i + 3).min(model[t].len()) {
                let (g, m) = (wins[t].get(j), model[t][j]);
                c.ok(g.to_bits() == m.to_bits(), "contents", || format!("after assign({i}): element {j} is {g:?}, expected {m:?}"))?;
            }
        }
        let full = total <= 200 || (total <= 8000 && step % 8 == 7) || step + 1 == ops;
        if full {
            for t in 0..nb {
                let m = std::mem::take(&mut model[t]);
                wins[t].check(c, &m, "after the last operation")?;
                model[t] = m;
            }
        }
    }
    if w_hit && r_hit && refused {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| t);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03
// ---------------------------------------------------------------------------------------------

fn c03(c: &mut Ctx) -> R {
    #[cfg(not(miri))]
    if c.case % 2000 == 1999 {
        return crate::giant::run(c);
    }
    let n = if c.case < 2000 && !c.small() { 1 + c.case as usize % 50 } else { c.rng.len(if c.small() { 30 } else { 3000 }) };
    let data: Vec<f32> = (0..n).map(|i| i as f32 + 0.25).collect();
    let win = Win::new(c, &data);
    let mut model = data;
    c.sig(n as u64);
    if c.rng.chance(1, 2) {
        let v = win.view_mut();
        c03_chain(c, &win, &mut model, v, true)?;
    } else {
        c.cov("readonly");
        let v = win.view();
        c03_chain(c, &win, &mut model, v, false)?;
    }
    win.check(c, &model, "after sub-view accesses")
}

trait Writes: Reads {
    fn assign_(&mut self, i: usize, v: f32) -> Option<Result<(), embedded_audio_tools::errors::MemSliceError>>;
}
impl Writes for MemorySlice<Mutable> {
    fn assign_(&mut self, i: usize, v: f32) -> Option<Result<(), embedded_audio_tools::errors::MemSliceError>> {
        Some(self.assign(i, v))
    }
}
impl Writes for MemorySlice<NonMutable> {
    fn assign_(&mut self, _: usize, _: f32) -> Option<Result<(), embedded_audio_tools::errors::MemSliceError>> {
        None
    }
}

fn c03_chain<V: Writes>(c: &mut Ctx, win: &Win, model: &mut [f32], root: V, _m: bool) -> R {
    let base = unsafe { win.buf.ptr().add(win.off) } as usize;
    let mut stack: Vec<(V, usize, usize)> = vec![(root, 0, win.len)];
    let (mut granted, mut refused) = (false, false);
    let mut sysk = 0usize;
    for _ in 0..(if c.small() { 24 } else { 40 }) {
        let k = if c.rng.chance(1, 2) { stack.len() - 1 } else { c.rng.usize(stack.len()) };
        let (v, off, len) = stack[k];
        // requests around the boundary, exact fits, and extreme numbers
        let o = match c.rng.below(4) {
            0 => ext_usize(c, len),
            1 => len.saturating_sub(c.rng.usize(3)),
            2 => {
                sysk += 1;
                sysk % (len + 2)
            }
            _ => c.rng.usize(len + 2),
        };
        let fit = len.wrapping_sub(o);
        let l = match c.rng.below(6) {
            0 => ext_usize(c, len),
            1 | 2 => fit,
            3 => fit.wrapping_add(1),
            4 => fit.wrapping_sub(c.rng.usize(4)),
            _ => c.rng.usize(len + 2),
        };
        c.sig(o as u64);
        c.sig(l as u64);
        c.note(|| format!("[{len}@{off}].get_sub_slice({o},{l})"));
        if is_ext(o, len) || is_ext(l, len) {
            c.cov("huge number");
        }
        let r = v.sub_(o, l);
        c.ev(1);
        let want: Result<(), _> = if o >= len {
            Err(IndexOutOfBound)
        } else if l > len - o {
            Err(LengthOutOfBound)
        } else {
            Ok(())
        };
        match (r, want) {
            (Ok(s), Ok(())) => {
                granted = true;
                c.cov("granted");
                let raw = s.raw_();
                let p = raw as *const f32 as usize;
                let (rl, sl) = (s.len_(), raw.len());
                if rl != l || sl != l || (l > 0 && p != base + 4 * (off + o)) {
                    return Err(viol("window", format!("sub-view ({o},{l}) of [{len}@{off}] has length {rl}/{sl}, starts at element {} of the root; {}", (p as i64 - base as i64) / 4, c.trace())));
                }
                if l == fit {
                    c.cov("exact fit granted");
                    if o == 0 {
                        c.cov("full view granted");
                    }
                }
                if l == 0 {
                    c.cov("empty window granted");
                    let (a, b) = (s.get_(0), s.get_(c.rng.usize(5)));
                    c.ok(a == Err(IndexOutOfBound) && b == Err(IndexOutOfBound), "empty-window", || format!("empty sub-view returned {a:?} {b:?}"))?;
                    continue;
                }
                let at = off + o;
                for j in 0..3 {
                    let i = match j {
                        0 => 0,
                        1 => l - 1,
                        _ => c.rng.usize(l),
                    };
                    let g = s.get_(i);
                    let m = model[at + i];
                    c.ok(g == Ok(m), "element", || format!("sub-view [{l}@{at}] element {i} is {g:?}, parent holds {m:?}"))?;
                }
                let g = s.get_(l);
                c.ok(g == Err(IndexOutOfBound), "bound", || format!("sub-view [{l}@{at}] accepted element {l}: {g:?}"))?;
                let wi = ext_isize(c, l);
                let m = model[at + (wi as i128).rem_euclid(l as i128) as usize];
                let g = s.get_wrapped_(wi);
                c.ok(g == m, "wrapped", || format!("sub-view [{l}@{at}] wrapped element {wi} is {g:?}, expected {m:?}"))?;
                let fi = c.rng.range(-(l as i64) - 3, 2 * l as i64 + 3) as isize;
                let four = s.four_(fi);
                for q in 0..4 {
                    let m = model[at + (fi + q as isize).rem_euclid(l as isize) as usize];
                    c.ok(four[q] == m, "wrapped-four", || format!("sub-view [{l}@{at}] four at {fi}: sample {q} is {:?}, expected {m:?}", four[q]))?;
                }
                c.cov("wrapped inside");
                let mut s2 = s;
                let i = c.rng.usize(l);
                let x = c.rng.f(-1000.0, 1000.0);
                if let Some(r) = s2.assign_(i, x) {
                    c.ok(r == Ok(()), "write", || format!("assign({i}) on sub-view of {l} returned {r:?}"))?;
                    model[at + i] = x;
                    let g = win.get(at + i);
                    c.ok(g == x, "alias", || format!("write to sub-view element {i} left the parent's element {} at {g:?}", at + i))?;
                    let r = s2.assign_(l, 7.0);
                    c.ok(r == Some(Err(IndexOutOfBound)), "write-bound", || format!("assign({l}) on sub-view of {l} returned {r:?}"))?;
                    c.cov("write aliases");
                }
                if stack.len() < 8 {
                    stack.push((s, at, l));
                    if stack.len() >= 4 {
                        c.cov("nested depth 3");
                    }
                } else {
                    stack[1 + k % 7] = (s, at, l);
                }
            }
            (Err(e), Err(we)) => {
                refused = true;
                if e != we {
                    return Err(viol("refusal", format!("get_sub_slice({o},{l}) of {len} refused as {e:?}, expected {we:?}; {}", c.trace())));
                }
                c.cov(if we == IndexOutOfBound { "index refused" } else { "length refused" });
            }
            (Ok(s), Err(we)) => return Err(viol("granted-bad", format!("get_sub_slice({o},{l}) of a {len}-element view was granted (length {}), expected {we:?}; {}", s.len_(), c.trace()))),
            (Err(e), Ok(())) => return Err(viol("refused-good", format!("get_sub_slice({o},{l}) of a {len}-element view was refused as {e:?}; {}", c.trace()))),
        }
    }
    // a null view grants nothing
    let (o, l) = (ext_usize(c, 0), ext_usize(c, 0));
    let r = null_mut().get_sub_slice(o, l).err();
    c.ok(r == Some(IndexOutOfBound), "null", || format!("null view: get_sub_slice({o},{l}) gave {r:?}"))?;
    if granted && refused {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| t);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------------------------

fn c04(c: &mut Ctx) -> R {
    #[cfg(not(miri))]
    if c.case % 1000 == 999 {
        return crate::giant::run(c);
    }
    let n = if c.small() {
        1 + c.rng.usize(12)
    } else if c.case < 300 {
        1 + c.case as usize
    } else if c.rng.chance(1, 100) {
        60_000 + c.rng.usize(80_000)
    } else {
        c.rng.len(5000)
    };
    if n > 50_000 {
        c.cov("large buffer");
    }
    let data: Vec<f32> = (0..n).map(|i| i as f32 + 0.5).collect();
    let win = Win::new(c, &data);
    c.sig(n as u64);
    if n < 4 {
        c.cov("length below four");
    }
    if n == 1 {
        c.cov("length 1");
    }
    if c.rng.chance(1, 2) {
        c04_reads(c, n, win.view_mut())?;
    } else {
        c04_reads(c, n, win.view())?;
    }
    win.check(c, &data, "after wrapped reads")
}

fn c04_reads<V: Reads>(c: &mut Ctx, n: usize, v: V) -> R {
    let model = |i: i128| i.rem_euclid(n as i128) as f32 + 0.5;
    let mut idx: Vec<isize> = vec![];
    if n <= 300 && c.case < 300 && !c.small() {
        idx.extend(-(3 * n as isize) - 5..=3 * n as isize + 5);
    }
    for b in [isize::MIN, isize::MAX, 0, n as isize, -(n as isize), i32::MAX as isize, i32::MIN as isize, u32::MAX as isize] {
        for d in -4..=4isize {
            idx.push(b.saturating_add(d));
        }
    }
    for _ in 0..(if c.small() { 20 } else { 200 }) {
        idx.push(ext_isize(c, n));
    }
    let (mut neg, mut bey, mut ext) = (0, 0, 0);
    for i in idx {
        c.sig(i as u64);
        let x = v.get_wrapped_(i);
        let m = model(i as i128);
        c.ok(x == m, "single", || format!("length {n}: get_wrapped({i}) = {x:?}, expected element {}", m - 0.5))?;
        let u = unsafe { v.getwu_(i) };
        c.ok(u == m, "single-unchecked", || format!("length {n}: get_wrapped_unchecked({i}) = {u:?}, expected element {}", m - 0.5))?;
        let f = v.four_(i);
        for k in 0..4 {
            let m = model(i as i128 + k as i128);
            c.ok(f[k] == m, "four", || format!("length {n}: get_slice_of_four_wrapped({i})[{k}] = {:?}, expected element {}", f[k], m - 0.5))?;
        }
        if i < 0 {
            neg += 1
        } else if i >= n as isize {
            bey += 1
        } else {
            c.cov("inside");
            c.cov(if i + 3 < n as isize { "four inside" } else { "four straddles" });
        }
        if (i as i128).abs() > 1 << 40 {
            ext += 1
        }
    }
    c.covn("negative", neg);
    c.covn("beyond", bey);
    c.covn("extreme", ext);
    c.nontrivial();
    let s = c.seed;
    c.sample(|| format!("length {n}, {} indices incl. isize::MIN..MIN+4, isize::MAX-4..MAX, random (seed {s})", neg + bey));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------------------------

fn lerp_model(data: &[f32], i: i64, frac: f64) -> (f64, f64, f64) {
    let n = data.len() as i64;
    let a = data[i.rem_euclid(n) as usize] as f64;
    let b = data[(i + 1).rem_euclid(n) as usize] as f64;
    (a * (1.0 - frac) + b * frac, a, b)
}
/// judge one interpolated value at an exactly known position
fn judge_lerp(c: &mut Ctx, data: &[f32], pos: f64, got: f32, what: &str) -> R {
    let fl = pos.floor();
    let frac = pos - fl;
    let (want, a, b) = lerp_model(data, fl as i64, frac);
    let n = data.len();
    if frac == 0.0 {
        c.cov("integer position");
        return c.ok(got as f64 == a, "integer", || format!("{what}: length {n}, position {pos:?} returned {got:?}, the element is {a:?}"));
    }
    let tol = 4.0 * EPS * (a.abs() + b.abs()) + 1e-44;
    c.near(got as f64, want, tol, "interpolation", || format!("{what}: length {n}, position {pos:?} between {a:?} and {b:?}"))?;
    let (lo, hi) = (a.min(b) - tol, a.max(b) + tol);
    c.ok(got as f64 >= lo && got as f64 <= hi, "range", || format!("{what}: {got:?} outside [{a:?}, {b:?}]"))
}

fn c05(c: &mut Ctx) -> R {
    #[cfg(not(miri))]
    if c.case % 1000 == 999 {
        return crate::giant::run(c);
    }
    let n = if c.small() {
        1 + c.rng.usize(12)
    } else if c.case < 300 {
        1 + c.case as usize
    } else if c.rng.chance(1, 100) {
        30_000 + c.rng.usize(50_000)
    } else if c.rng.chance(1, 1000) {
        (1 << 22) - c.rng.usize(3)
    } else {
        c.rng.len(5000)
    };
    if n > 20_000 {
        c.cov("large buffer");
    }
    let data = if c.case < 300 && c.case % 2 == 0 { (0..n).map(|_| c.rng.f(-1.0, 1.0)).collect() } else { rand_contents(c, n) };
    let win = Win::new(c, &data);
    c.sig(n as u64);
    c.sigf(data[0]);
    if c.rng.chance(1, 2) {
        c05_reads(c, &data, win.view_mut())?;
    } else {
        c05_reads(c, &data, win.view())?;
    }
    // empty views: every checked position is refused
    let p = ext_f32(c, 3);
    let r = null().lerp(p);
    c.ok(r == Err(IndexOutOfBound), "empty", || format!("null view: lerp({p:?}) = {r:?}"))?;
    let mut e = null_mut();
    unsafe { e.change_mut_slice_unchecked(win.buf.ptr(), 0) };
    for p in [0.0, -0.0, p] {
        let r = e.lerp(p);
        c.ok(r == Err(IndexOutOfBound), "empty", || format!("empty view: lerp({p:?}) = {r:?}"))?;
    }
    c.cov("checked empty");
    if n <= 5000 {
        win.check(c, &data, "after linear reads")?;
    }
    Ok(())
}

fn c05_reads<V: Reads>(c: &mut Ctx, data: &[f32], v: V) -> R {
    let n = data.len();
    let last = (n - 1) as f32;
    let mut ps: Vec<f32> = vec![];
    let base: Vec<f32> = if n <= 300 && c.case < 300 && !c.small() { (-1..=n as i32 + 1).map(|i| i as f32).collect() } else { vec![-1.0, 0.0, 1.0, last - 1.0, last, n as f32] };
    for b in base {
        ps.extend([b, next_up(b), next_down(b), b + 0.5]);
    }
    ps.extend([f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 1e-45, -1e-45, f32::MAX, f32::MIN, last + 1.0, 1e9, -1e9, 4294967296.0, 9.3e18, 1.9e19]);
    for _ in 0..(if c.small() { 20 } else { 120 }) {
        ps.push(match c.rng.below(8) {
            0..=3 => c.rng.f(0.0, n as f64 - 1.0),
            4 => c.rng.range(0, n as i64 - 1) as f32,
            5 => last + c.rng.f(-1.0, 1.0),
            _ => ext_f32(c, n),
        });
    }
    for p in ps {
        c.sigf(p);
        let r = v.lerp_(p);
        let inside = p >= 0.0 && p <= last;
        c.ev(1);
        match r {
            Ok(x) => {
                if !inside {
                    return Err(viol("accepted", format!("length {n}: lerp({p:?}) accepted and returned {x:?}")));
                }
                judge_lerp(c, data, p as f64, x, "lerp")?;
                c.cov("checked inside");
                if p == last {
                    c.cov("checked last index");
                }
                if p.fract() != 0.0 && ((next_up(p)).fract() == 0.0 || next_down(p).fract() == 0.0) {
                    c.cov("ulp neighbours");
                }
                if p < last {
                    let u = unsafe { v.lerpu_(p) };
                    judge_lerp(c, data, p as f64, u, "lerp_unchecked")?;
                }
            }
            Err(e) => {
                if inside || e != IndexOutOfBound {
                    return Err(viol("refused", format!("length {n}: lerp({p:?}) refused with {e:?}")));
                }
                c.cov(if p.is_nan() {
                    "checked nan"
                } else if p < 0.0 {
                    "checked negative"
                } else {
                    "checked beyond"
                });
            }
        }
    }
    let mut ws: Vec<f32> = vec![];
    for k in [-3i64, -2, -1, 0, 1, 2, 3] {
        let b = (k * n as i64) as f32;
        ws.extend([b, next_up(b), next_down(b), b - 0.5, b + 0.5, b - 1.0, b + 1.0, b - 1.5]);
    }
    if n <= 300 && c.case < 300 && !c.small() {
        ws.extend((-2 * n as i32..=2 * n as i32).map(|i| i as f32 / 2.0));
    }
    for _ in 0..(if c.small() { 20 } else { 160 }) {
        ws.push(match c.rng.below(7) {
            0 | 1 => c.rng.f(-3.0 * n as f64, 4.0 * n as f64),
            2 => c.rng.f(-4e6, 4e6),
            3 => c.rng.range(-4_000_000, 4_000_000) as f32,
            4 => c.rng.range(-16_000, 16_000) as f32 / 8.0,
            5 => c.rng.logf(4e6, 3e38) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 },
            _ => ext_f32(c, n),
        });
    }
    for p in ws {
        if !p.is_finite() {
            continue;
        }
        c.sigf(p);
        let x = v.lerp_wrapped_(p);
        judge_lerp_wrapped(c, data, p, x)?;
        if p < 0.0 {
            c.cov("wrapped negative");
        } else if p >= n as f32 {
            c.cov("wrapped beyond");
        }
        if (p.floor() as i64).rem_euclid(n as i64) == n as i64 - 1 && p.fract() != 0.0 {
            c.cov("wrapped seam");
        }
    }
    c.nontrivial();
    let d0 = data[0];
    c.sample(|| format!("length {n} (first element {d0:?}): integers, ulp neighbours, seams and random positions through lerp and lerp_wrapped"));
    Ok(())
}

/// tiny negative positions: floor(p) = -1 and the fraction rounds to 1 in f32; both neighbours stay right
/// a distant position has no fraction: the same place inside the buffer (exact)
fn near_place(p: f32, n: usize) -> f64 {
    if p.abs() >= 2147483648.0 {
        (p as f64).rem_euclid(n as f64)
    } else {
        p as f64
    }
}
fn judge_lerp_wrapped(c: &mut Ctx, data: &[f32], p: f32, got: f32) -> R {
    if p.abs() >= 2147483648.0 {
        c.cov("beyond 32 bits");
        let at = near_place(p, data.len());
        let want = data[at as usize];
        return c.ok(got == want, "far", || format!("lerp_wrapped: length {}, position {p:?} returned {got:?}, that is element {at} = {want:?}", data.len()));
    }
    judge_lerp(c, data, p as f64, got, "lerp_wrapped")
}

// ---------------------------------------------------------------------------------------------
// C06
// ---------------------------------------------------------------------------------------------

/// all window placements (offset of the first sample from floor(position)) the property admits
fn lowers(w: usize) -> Vec<i64> {
    let w = w as i64;
    if w % 2 == 0 {
        vec![1 - w / 2]
    } else {
        vec![(1 - w) / 2, (3 - w) / 2]
    }
}

/// In single precision the weight of an outer sample, multiplied up factor by factor in either
/// direction, can pass through the subnormal range and lose digits there.
fn weight_underflow(s: &[f64], x: f64) -> f64 {
    let n = s.len();
    let ulp = 2f64.powi(-149);
    let mut lost = 0.0;
    for i in 0..n {
        let f = |j: usize| if i == j { 1.0 } else { (x - j as f64) / (i as f64 - j as f64) };
        let (mut up, mut down, mut m) = (1.0f64, 1.0f64, 1.0f64);
        for k in 0..n {
            up *= f(k);
            down *= f(n - 1 - k);
            m = m.min(up.abs()).min(down.abs());
        }
        if m < 2f64.powi(-120) {
            lost += (up * s[i]).abs() * (n as f64 * ulp / m).min(1.0);
        }
    }
    lost
}

fn judge_lagrange(c: &mut Ctx, data: &[f32], w: usize, lowers: &[i64], pos: f64, dpos: f64, got: f32, what: &str) -> R {
    let n = data.len() as i64;
    let fl = pos.floor() as i64;
    c.ev(1);
    if pos.fract() == 0.0 && dpos == 0.0 {
        let m = data[fl.rem_euclid(n) as usize];
        // the other samples have weight zero; the basis product of this one is rounded at each factor
        return c.near(got as f64, m as f64, 2.0 * w as f64 * EPS * m.abs() as f64 + 1e-44, "integer", || format!("{what}: length {n}, window {w}, position {pos:?}"));
    }
    // with large windows single-precision intermediates can go subnormal and be scaled back up
    let underflow = if w > 20 { 1e-20 } else { 1e-44 };
    let mut best = f64::INFINITY;
    let mut msg = String::new();
    for lo in lowers {
        let s: Vec<f64> = (0..w as i64).map(|k| data[(fl + lo + k).rem_euclid(n) as usize] as f64).collect();
        let x = pos - fl as f64 - *lo as f64;
        let (y, cond) = lagrange64(&s, x);
        // position rounding: the fraction is shifted by up to half an ulp of the window coordinate
        let d = dpos + EPS * (w as f64 / 2.0 + 1.0);
        let (y1, c1) = lagrange64(&s, x + d);
        let (y2, c2) = lagrange64(&s, x - d);
        let lost = if w > 30 { weight_underflow(&s, x) } else { 0.0 };
        let tol = 3.0 * (y1 - y).abs().max((y2 - y).abs()) + (4.0 * w as f64) * EPS * cond.max(c1).max(c2) + underflow + lost;
        let e = (got as f64 - y).abs() / tol;
        if !(e >= best) || msg.is_empty() {
            best = e;
            msg = format!("{what}: length {n}, window {w}, position {pos:?} returned {got:?}, expected {y:?} +- {tol:e}");
        }
    }
    if best <= 1.0 {
        if best.is_finite() {
            c.max("largest lagrange error / tolerance", best);
        }
        Ok(())
    } else {
        Err(viol("lagrange", msg))
    }
}

fn c06(c: &mut Ctx) -> R {
    #[cfg(not(miri))]
    if c.case % 200 == 199 {
        return crate::giant::run(c);
    }
    let n = if c.small() {
        1 + c.rng.usize(12)
    } else if c.case < 300 {
        1 + c.case as usize % 150
    } else if c.rng.chance(1, 200) {
        20_000 + c.rng.usize(100_000)
    } else {
        c.rng.len(2000)
    };
    if n >= 2 && c.case % 5 == 3 {
        return c06_balanced(c);
    }
    let kind = c.rng.below(5);
    let data: Vec<f32> = match kind {
        0 => {
            c.cov("polynomial");
            let d = c.rng.usize(4);
            let k: Vec<f64> = (0..=d).map(|_| c.rng.unit() * 2.0 - 1.0).collect();
            (0..n)
                .map(|i| {
                    let x = i as f64 / 8.0;
                    k.iter().rev().fold(0.0, |a, b| a * x + b) as f32
                })
                .collect()
        }
        1 => {
            c.cov("impulse");
            let k = c.rng.usize(n);
            (0..n).map(|i| if i == k { 1.0 } else { 0.0 }).collect()
        }
        _ => (0..n).map(|_| c.rng.f(-1.0, 1.0)).collect(),
    };
    let win = Win::new(c, &data);
    c.sig(n as u64);
    c.sigf(data[n / 2]);
    if c.rng.chance(1, 2) {
        c06_reads(c, &data, win.view_mut())?;
    } else {
        c06_reads(c, &data, win.view())?;
    }
    // delay line: five points around index + offset
    let mut d = DelayLine::new(win.view_mut());
    let mut at = 0i64;
    for _ in 0..(if c.small() { 6 } else { 30 }) {
        for _ in 0..c.rng.usize(n.min(7) + 1) {
            d.advance();
            at = (at + 1) % n as i64;
        }
        let off = match c.rng.below(4) {
            0 => c.rng.range(-2 * n as i64, 2 * n as i64) as f32,
            1 => c.rng.range(-16 * n as i64, 16 * n as i64) as f32 / 8.0,
            _ => c.rng.f(-2.0 * n as f64, 2.0 * n as f64),
        };
        c.sigf(off);
        let got = d.read_lagrange_wrapped_at(off);
        let pos = at as f64 + off as f64;
        let exact = (at as f32 + off) as f64 == pos;
        let dp = if exact { 0.0 } else { EPS * (pos.abs() + at as f64 + 1.0) };
        judge_lagrange(c, &data, 5, &[-1, -2], pos, dp, got, "delay line tap")?;
        c.cov("delay line");
    }
    if n <= 2000 {
        win.check(c, &data, "after lagrange reads")?;
    }
    Ok(())
}

/// a buffer made for one window and position, in which every sample of the window contributes equally
/// to the result: the samples far from the position, whose weights are tiny, are judged as sharply as
/// the near ones
fn c06_balanced(c: &mut Ctx) -> R {
    for _ in 0..(if c.small() { 1 } else { 8 }) {
        let k = c.case as usize / 5;
        let w = if c.rng.chance(1, 2) { 2 + k % 99 } else { 2 + c.rng.usize(99) };
        let w = if c.small() { 2 + w % 9 } else { w };
        let slack = if c.rng.chance(1, 4) { 200 } else { 3 };
        let n = w + c.rng.usize(slack);
        let turns = c.rng.range(-2, 2) * n as i64;
        let fl = turns + c.rng.usize(n) as i64;
        let frac = c.rng.range(1, 15) as f64 / 16.0;
        let los = lowers(w);
        let lo = c.rng.pick(&los);
        let mut data: Vec<f32> = (0..n).map(|_| c.rng.f(-1e-13, 1e-13)).collect();
        let x = frac - lo as f64;
        for i in 0..w {
            let mut l = 1.0f64;
            for j in 0..w {
                if i != j {
                    l *= (x - j as f64) / (i as f64 - j as f64);
                }
            }
            let r = c.rng.f(0.5, 1.0) as f64 * if c.rng.chance(1, 2) { 1.0 } else { -1.0 };
            data[(fl + lo + i as i64).rem_euclid(n as i64) as usize] = (r * 1e-13 / l) as f32;
        }
        let win = Win::new(c, &data);
        let p = (fl as f64 + frac) as f32;
        c.sig(w as u64);
        c.sig(n as u64);
        c.sigf(p);
        c.note(|| format!("lagrange_wrapped({p:?}, {w}) over {n} samples scaled against their weights"));
        let got = if c.rng.chance(1, 2) { win.view().lag_(p, w) } else { win.view_mut().lag_(p, w) };
        judge_lagrange(c, &data, w, &lowers(w), p as f64, 0.0, got, "lagrange_wrapped (equal contributions)")?;
        if w > 16 {
            c.cov("equal contributions, large window");
        }
    }
    c.nontrivial();
    let t = c.trace();
    c.sample(|| t);
    Ok(())
}

fn c06_reads<V: Reads>(c: &mut Ctx, data: &[f32], v: V) -> R {
    let n = data.len();
    let mut nonint = false;
    for k in 0..(if c.small() { 10 } else { 60 }) {
        let p = match c.rng.below(7) {
            6 => {
                let p = c.rng.logf(4e6, 3e38) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 };
                c.cov(if p.abs() >= 2147483648.0 { "beyond 32 bits" } else { "beyond 2^22" });
                p
            }
            0 => c.rng.range(-2 * n as i64 - 2, 3 * n as i64 + 2) as f32,
            1 => {
                let b = c.rng.range(-1, 2) as f32 * n as f32;
                if c.rng.chance(1, 2) {
                    next_up(b)
                } else {
                    next_down(b)
                }
            }
            2 => c.rng.range(-800_000, 800_000) as f32 / 4.0,
            3 => c.rng.range(-2 * n as i64 - 2, 3 * n as i64 + 2) as f32 + 0.5,
            _ => c.rng.f(-2.0 * n as f64 - 2.0, 3.0 * n as f64 + 2.0),
        };
        let w = match k % 6 {
            0 => 2 + (c.case as usize + k) % 99,
            1 => c.rng.pick(&[2usize, 3, 4, 5]),
            2 => c.rng.pick(&[99usize, 100, 98]),
            _ => 2 + c.rng.usize(15),
        };
        // with large windows near-integer positions only: keep the double model itself accurate
        c.sigf(p);
        c.sig(w as u64);
        c.note(|| format!("lagrange_wrapped({p:?}, {w})"));
        // sizes outside 2..=100 stand for the nearest one inside
        let asked = match c.rng.below(24) {
            0 if w == 2 => c.rng.usize(2),
            0 | 1 if w == 100 => {
                let big = c.rng.pick(&[101usize, 102, 128, 200, 256, 1000, 65_537, bit(32), bit(32) + 5, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
                c.cov("window above 100");
                big
            }
            _ => w,
        };
        if asked < 2 {
            c.cov("window below 2");
        }
        let got = v.lag_(p, asked);
        judge_lagrange(c, data, w, &lowers(w), near_place(p, n), 0.0, got, "lagrange_wrapped")?;
        let g4 = v.lag4_(p);
        judge_lagrange(c, data, 4, &[-2, -1, 0], near_place(p, n), 0.0, g4, "lagrange_four_points_wrapped")?;
        c.cov("four point");
        c.cov(if w % 2 == 1 { "odd window" } else { "even window" });
        if w == 100 {
            c.cov("window 100")
        }
        if w == 2 {
            c.cov("window 2")
        }
        if p.fract() == 0.0 {
            c.cov("integer position")
        } else {
            nonint = true
        }
        if p < 0.0 {
            c.cov("negative position")
        }
        if p > n as f32 {
            c.cov("beyond length")
        }
        if n < w {
            c.cov("length below window")
        }
    }
    if nonint {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| format!("length {n}: {}", &t[..t.len().min(400)]));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------------------------

struct Line {
    d: DelayLine,
    /// which window (NONE = null/empty)
    w: usize,
    at: usize,
}

fn c07(c: &mut Ctx) -> R {
    if let Some(k) = crate::long::turn(c, 500) {
        return crate::long::run(c, k);
    }
    if c.case >= 200 && c.rng.chance(1, 8) || c.small() && c.rng.chance(1, 4) {
        return c07_parts(c);
    }
    let nb = 1 + c.rng.usize(3);
    let mut wins = vec![];
    let mut model: Vec<Vec<f32>> = vec![];
    let mut tag = 1.0f32;
    for k in 0..nb {
        let n = if c.small() {
            1 + c.rng.usize(9)
        } else if c.case < 200 && k == 0 {
            1 + c.case as usize % 100
        } else if c.rng.chance(1, 60) {
            20_000 + c.rng.usize(80_000)
        } else {
            c.rng.len(3000)
        };
        let n = if k > 0 && c.rng.chance(1, 5) { model[0].len() } else { n };
        let d: Vec<f32> = (0..n)
            .map(|_| {
                tag += 1.0;
                tag
            })
            .collect();
        if n > 10_000 {
            c.cov("long line");
        }
        if n == 1 {
            c.cov("length 1");
        }
        c.sig(n as u64);
        wins.push(Win::new(c, &d));
        model.push(d);
    }
    let mut lines = vec![Line { d: DelayLine::new(wins[0].view_mut()), w: 0, at: 0 }];
    locate(c, &wins, &model, &mut lines[0])?;
    let total: usize = model.iter().map(|m| m.len()).sum();
    let ops = if c.small() { 40 } else { 160 };
    let (mut wrapped, mut tapped) = (false, false);
    for step in 0..ops {
        let k = c.rng.usize(lines.len());
        let n = if lines[k].w == NONE { 0 } else { model[lines[k].w].len() };
        let op = c.rng.below(20);
        c.sig(op);
        match op {
            0..=4 => {
                // a burst of writes, each read back before it is overwritten
                let burst = match c.rng.below(4) {
                    0 => 1,
                    1 => 1 + c.rng.usize(8),
                    2 => n + c.rng.usize(3),
                    _ => c.rng.usize(2 * n + 2),
                }
                .min(if c.small() { 12 } else { 4000 });
                c.note(|| format!("line{k}[{n}] write x{burst}"));
                let mut log: Vec<f32> = vec![];
                for j in 0..burst {
                    tag += 1.0;
                    let x = match c.rng.below(16) {
                        0 | 1 => c.rng.sample(),
                        2 => {
                            c.cov("special value written");
                            weird(c)
                        }
                        _ => tag,
                    };
                    let x = if is_canary(x) || x == DECOY { tag } else { x };
                    let l = &mut lines[k];
                    let r = l.d.read();
                    c.ev(1);
                    if n == 0 {
                        if r != 0.0 {
                            return Err(viol("silence", format!("empty line read {r:?}")));
                        }
                        l.d.write_and_advance(x);
                        c.cov("empty reads silence");
                        continue;
                    }
                    let m = model[l.w][l.at];
                    if r.to_bits() != m.to_bits() {
                        return Err(viol("read", format!("line of {n}: read {r:?} at slot {}, expected {m:?}; {}", l.at, c.trace())));
                    }
                    // exactly-once, in order: what comes out is what went in n writes ago
                    if log.len() >= n {
                        let want = log[j - n];
                        if r.to_bits() != want.to_bits() {
                            return Err(viol("fifo", format!("line of {n}: write {j} found {r:?}, {want:?} was written {n} writes earlier")));
                        }
                        c.cov("fifo checked");
                    }
                    log.push(x);
                    l.d.write_and_advance(x);
                    model[l.w][l.at] = x;
                    let slot = l.at;
                    l.at += 1;
                    if l.at == n {
                        l.at = 0;
                        wrapped = true;
                        c.cov("wrap around");
                    }
                    let g = wins[l.w].get(slot);
                    if g.to_bits() != x.to_bits() {
                        return Err(viol("write", format!("line of {n}: slot {slot} holds {g:?} after writing {x:?}; {}", c.trace())));
                    }
                    c.cov("write");
                }
            }
            5 => {
                let cnt = 1 + c.rng.usize((n + 2).min(50));
                c.note(|| format!("line{k}[{n}] advance x{cnt}"));
                let l = &mut lines[k];
                for _ in 0..cnt {
                    l.d.advance();
                    if n > 0 {
                        l.at = (l.at + 1) % n;
                        if l.at == 0 {
                            wrapped = true;
                        }
                    }
                }
                c.cov("advance");
            }
            6 => {
                let l = &lines[k];
                let r = l.d.read();
                let m = if n == 0 { 0.0 } else { model[l.w][l.at] };
                c.ok(r.to_bits() == m.to_bits(), "read", || format!("line of {n}: read {r:?} at slot {}, expected {m:?}", l.at))?;
                let len = l.d.len();
                c.ok(len == n, "len", || format!("line over {n} samples reports length {len}"))?;
                c.cov("read");
            }
            7..=10 => {
                let o = ext_isize(c, n);
                c.sig(o as u64);
                c.note(|| format!("line{k}[{n}] tap {o}"));
                let l = &lines[k];
                let r = l.d.read_wrapped_at(o);
                let tr = if n > 0 && r != model[l.w][(l.at as i128 + o as i128).rem_euclid(n as i128) as usize] { c.trace() } else { String::new() };
                let m = if n == 0 { 0.0 } else { model[l.w][(l.at as i128 + o as i128).rem_euclid(n as i128) as usize] };
                c.ok(r.to_bits() == m.to_bits(), "tap", || format!("line of {n} at slot {}: tap {o} returned {r:?}, expected {m:?}; {tr}", l.at))?;
                c.cov(if n == 0 { "empty tap silence" } else { "tap" });
                if o < 0 {
                    c.cov("tap negative");
                }
                if (o as i128).abs() > 1 << 40 {
                    c.cov("tap extreme");
                }
                tapped = true;
            }
            11 | 12 => {
                let o = match c.rng.below(5) {
                    0 => c.rng.range(-2 * n as i64 - 1, 2 * n as i64 + 1) as f32,
                    1 => c.rng.range(-16 * n as i64 - 1, 16 * n as i64 + 1) as f32 / 8.0,
                    2 => c.rng.f(-1e5, 1e5),
                    3 => c.rng.f(0.0, n as f64),
                    _ => c.rng.f(-2.0 * n as f64 - 1.0, 2.0 * n as f64 + 1.0),
                };
                c.sigf(o);
                c.note(|| format!("line{k}[{n}] lerp tap {o:?}"));
                let l = &lines[k];
                let r = l.d.read_lerp_wrapped_at(o);
                if n == 0 {
                    c.ok(r == 0.0, "silence", || format!("empty line: linear tap {o:?} returned {r:?}"))?;
                    c.cov("empty tap silence");
                } else if !tame(&model[l.w], l.at as f64 + o as f64, 2) {
                    c.cov("fractional tap over special values");
                } else {
                    let pos = l.at as f64 + o as f64;
                    let exact = (l.at as f32 + o) as f64 == pos;
                    if exact {
                        judge_lerp(c, &model[l.w], pos, r, "linear tap")?;
                    } else {
                        // the summed position is rounded: accept the value anywhere within that rounding
                        let d = EPS * (pos.abs() + l.at as f64 + 1.0);
                        let m = &model[l.w];
                        let f = |p: f64| lerp_model(m, p.floor() as i64, p - p.floor()).0;
                        let mut vals = vec![f(pos - d), f(pos), f(pos + d)];
                        if (pos - d).floor() != (pos + d).floor() {
                            vals.push(m[((pos + d).floor() as i64).rem_euclid(n as i64) as usize] as f64);
                        }
                        let (lo, hi) = vals.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), v| (a.min(*v), b.max(*v)));
                        let mx = vals.iter().fold(0.0f64, |a, v| a.max(v.abs()));
                        let nb = lerp_model(m, pos.floor() as i64, 0.0);
                        let slack = 4.0 * EPS * (nb.1.abs() + nb.2.abs() + mx) + 1e-44;
                        c.ok(r as f64 >= lo - slack && r as f64 <= hi + slack, "lerp-tap", || format!("line of {n} at slot {}: linear tap {o:?} returned {r:?}, expected {lo:?}..{hi:?}", l.at))?;
                    }
                    c.cov("lerp tap");
                }
                tapped = true;
            }
            13 => {
                let o = match c.rng.below(3) {
                    0 => c.rng.range(-2 * n as i64 - 1, 2 * n as i64 + 1) as f32,
                    1 => c.rng.range(-16 * n as i64 - 1, 16 * n as i64 + 1) as f32 / 8.0,
                    _ => c.rng.f(-2.0 * n as f64 - 1.0, 2.0 * n as f64 + 1.0),
                };
                c.sigf(o);
                c.note(|| format!("line{k}[{n}] lagrange tap {o:?}"));
                let l = &lines[k];
                let r = l.d.read_lagrange_wrapped_at(o);
                if n == 0 {
                    c.ok(r == 0.0, "silence", || format!("empty line: lagrange tap {o:?} returned {r:?}"))?;
                    c.cov("empty tap silence");
                } else if !tame(&model[l.w], l.at as f64 + o as f64, 6) {
                    c.cov("fractional tap over special values");
                } else {
                    let pos = l.at as f64 + o as f64;
                    let exact = (l.at as f32 + o) as f64 == pos;
                    let dp = if exact { 0.0 } else { EPS * (pos.abs() + l.at as f64 + 1.0) };
                    judge_lagrange(c, &model[l.w], 5, &[-1, -2], pos, dp, r, "lagrange tap")?;
                    c.cov("lagrange tap");
                }
                tapped = true;
            }
            14 => {
                if lines.len() < 3 {
                    let l = &lines[k];
                    let n = Line { d: l.d, w: l.w, at: l.at };
                    lines.push(n);
                    c.cov("copy");
                    c.note(|| format!("copy line{k}"));
                }
            }
            15 | 16 => {
                let t = if c.rng.chance(1, 5) { NONE } else { c.rng.usize(nb) };
                let m = if t == NONE { 0 } else { model[t].len() };
                c.note(|| format!("line{k}[{n}] -> buffer {t} [{m}]"));
                c.sig(m as u64);
                let mut v = null_mut();
                if t == NONE {
                    if c.rng.chance(1, 2) {
                        unsafe { v.change_mut_slice_unchecked(wins[0].buf.ptr(), 0) };
                    }
                } else {
                    v = wins[t].view_mut();
                }
                lines[k].d.change_buffer(v);
                lines[k].w = t;
                c.cov(if m == 0 {
                    "swap to empty"
                } else if m < n {
                    "swap to shorter"
                } else if m == n {
                    "swap to same length"
                } else {
                    "swap to longer"
                });
                // the position after a swap is free, but it must be one slot of the new buffer
                if t != NONE {
                    // give every slot a unique value to find it
                    for i in 0..m {
                        tag += 1.0;
                        wins[t].set(i, tag);
                        model[t][i] = tag;
                    }
                    if tag > 1.6e7 {
                        return Ok(());
                    }
                    locate(c, &wins, &model, &mut lines[k])?;
                }
            }
            17 => {
                let l = &mut lines[k];
                let s = l.d.get_ptr_slice_mut();
                let (p, sl) = (s as *mut f32 as usize, s.len());
                let want = if n == 0 { 0 } else { unsafe { wins[l.w].buf.ptr().add(wins[l.w].off) as usize } };
                c.ok(sl == n && (n == 0 || p == want), "slice", || format!("get_ptr_slice_mut: {sl} elements at {p:x}, expected {n} at {want:x}"))?;
            }
            _ => {
                // the buffer is shared: an outside write is visible at that slot only
                if n > 0 {
                    let l = &lines[k];
                    let i = c.rng.usize(n);
                    tag += 1.0;
                    wins[l.w].set(i, tag);
                    model[l.w][i] = tag;
                }
            }
        }
        if tag > 1.6e7 {
            tag = 1.0;
        }
        if total <= 300 || (total <= 6000 && step % 16 == 15) || step + 1 == ops {
            for t in 0..nb {
                let m = std::mem::take(&mut model[t]);
                wins[t].check(c, &m, "delay line buffer")?;
                model[t] = m;
            }
        }
    }
    if wrapped && tapped {
        c.nontrivial();
        let t = c.trace();
        c.sample(|| t);
    }
    Ok(())
}

/// one line over changing, overlapping parts of one buffer, often with the same start
fn c07_parts(c: &mut Ctx) -> R {
    let n = if c.small() { 2 + c.rng.usize(5) } else { 2 + c.rng.usize(60) };
    let mut tag = 1.0f32;
    let mut model: Vec<f32> = (0..n).map(|i| -1.0 - i as f32).collect();
    let win = Win::new(c, &model);
    c.sig(n as u64);
    let part = |lo: usize, len: usize| {
        let mut v = null_mut();
        unsafe { v.change_mut_slice_unchecked(win.buf.ptr().add(win.off + lo), len) };
        v
    };
    let (mut lo, mut len) = (0, 1 + c.rng.usize(n));
    let mut d = DelayLine::new(part(lo, len));
    let (mut wrapped, mut tapped) = (false, false);
    let r = d.read();
    let Some(mut at) = (0..len).find(|i| model[*i].to_bits() == r.to_bits()) else {
        return Err(viol("start", format!("new line over {len} of {n} samples read {r:?}, which is not among them")));
    };
    for step in 0..if c.small() { 40 } else { 200 } {
        match c.rng.below(16) {
            0 | 1 => {
                let old = len;
                let same = c.rng.chance(1, 2);
                if !same {
                    lo = c.rng.usize(n);
                }
                len = 1 + c.rng.usize(n - lo);
                d.change_buffer(part(lo, len));
                c.note(|| format!("step {step}: {len} samples from {lo} on"));
                c.sig((lo * 64 + len) as u64);
                if same && old != len {
                    c.cov("swap to the same start");
                }
                // where it goes on is free, but it must be a slot of the new part
                let r = d.read();
                let Some(i) = (0..len).find(|i| model[lo + i].to_bits() == r.to_bits()) else {
                    return Err(viol("swap", format!("line over {len} samples from {lo} on of {n} read {r:?}, which is not among them; {}", c.trace())));
                };
                at = i;
            }
            2..=8 => {
                tag += 1.0;
                d.write_and_advance(tag);
                model[lo + at] = tag;
                at += 1;
                if at == len {
                    at = 0;
                    wrapped = true;
                }
            }
            9 => {
                d.advance();
                at = (at + 1) % len;
            }
            _ => {
                let o = c.rng.range(-200, 200) as isize;
                let r = d.read_wrapped_at(o);
                let m = model[lo + (at as isize + o).rem_euclid(len as isize) as usize];
                c.ok(r.to_bits() == m.to_bits() && d.len() == len, "parts", || format!("line over {len} samples from {lo} on, slot {at}: tap {o} gives {r:?}, expected {m:?}"))?;
                tapped = true;
            }
        }
        win.check(c, &model, "delay line part")?;
    }
    if wrapped && tapped {
        c.nontrivial();
    }
    Ok(())
}

/// the samples a fractional tap may touch are ordinary numbers, so interpolation has a defined value
fn tame(m: &[f32], pos: f64, reach: i64) -> bool {
    let n = m.len() as i64;
    (-reach..=reach).all(|k| {
        let v = m[(pos.floor() as i64 + k).rem_euclid(n) as usize].abs();
        v == 0.0 || (v > 1e-30 && v < 1e30)
    })
}

/// find the current slot of a line over a buffer of unique samples, by reading it and its taps
fn locate(c: &mut Ctx, wins: &[Win], model: &[Vec<f32>], l: &mut Line) -> R {
    let n = model[l.w].len();
    let r = l.d.read();
    let _ = wins;
    let Some(at) = model[l.w].iter().position(|v| v.to_bits() == r.to_bits()) else {
        return Err(viol("swap", format!("line over a buffer of {n} samples read {r:?}, which is not in it; {}", c.trace())));
    };
    l.at = at;
    let len = l.d.len();
    c.ok(len == n, "len", || format!("line over {n} samples reports length {len}"))?;
    for o in [0isize, 1, -1, n as isize - 1] {
        let r = l.d.read_wrapped_at(o);
        let m = model[l.w][(at as i128 + o as i128).rem_euclid(n as i128) as usize];
        c.ok(r.to_bits() == m.to_bits(), "swap", || format!("line of {n} at slot {at}: tap {o} returned {r:?}, expected {m:?}"))?;
    }
    Ok(())
}
