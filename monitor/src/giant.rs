//! Buffers with more elements than 16, 24, 31 or 32 bits can count (address space is reserved, only
//! the touched pages exist). Every element a read or write may be confused with carries its own tag.
use crate::core::*;
use crate::mem::Reads;
use embedded_audio_tools::errors::MemSliceError::*;
use std::collections::HashMap;

struct Giant {
    b: Buf,
    len: usize,
    model: HashMap<usize, f32>,
    tag: f32,
}
const WIDTHS: [u32; 5] = [16, 24, 31, 32, 20];

impl Giant {
    fn new(c: &mut Ctx) -> Option<Giant> {
        let mut bits = c.rng.pick(&[16u32, 17, 20, 24, 24, 31, 31, 32, 32, 33]);
        let extra = c.rng.usize(70_000);
        let (len, b) = loop {
            let len = (1usize << bits) + extra;
            if let Some(b) = Buf::huge(len) {
                break (len, b);
            }
            // no address space for it here
            if bits == 16 {
                return None;
            }
            bits = if bits > 24 { 24 } else { 16 };
        };
        c.sig(len as u64);
        c.cov("giant buffer");
        Some(Giant { b, len, model: HashMap::new(), tag: 0.0 })
    }
    fn index(&self, c: &mut Ctx) -> usize {
        let n = self.len;
        match c.rng.below(5) {
            0 => n - 1 - c.rng.usize(8),
            1 => c.rng.usize(8),
            2 => c.rng.usize(n),
            _ => {
                let w = c.rng.pick(&WIDTHS);
                let k = 1 + c.rng.usize((n >> w).max(1).min(9));
                let d = c.rng.range(-5, 300);
                (((k as i64) << w) + d).clamp(0, n as i64 - 1) as usize
            }
        }
    }
    fn aliases(&self, i: usize) -> Vec<usize> {
        let mut v = vec![];
        for w in WIDTHS {
            v.push(i & ((1usize << w) - 1));
            v.push(i | (1usize << w));
            v.push(i ^ (1usize << (w - 1)));
        }
        v.push(self.len - 1 - i);
        v.push(i as f32 as usize);
        v.retain(|x| *x < self.len && *x != i);
        v
    }
    fn put(&mut self, i: usize) -> f32 {
        self.tag += 1.0;
        self.b.set(i, self.tag);
        self.model.insert(i, self.tag);
        self.tag
    }
    fn at(&self, i: usize) -> f32 {
        self.model.get(&i).copied().unwrap_or(0.0)
    }
    /// element i and everything it may be confused with carry different values
    fn mark(&mut self, i: usize) -> f32 {
        for a in self.aliases(i) {
            if !self.model.contains_key(&a) {
                self.put(a);
            }
        }
        self.put(i)
    }
    fn check(&self, c: &mut Ctx) -> R {
        for (i, m) in &self.model {
            let g = self.b.get(*i);
            c.ok(g == *m, "giant-contents", || format!("element {i} of {} is {g:?}, expected {m:?}", self.len))?;
        }
        Ok(())
    }
}

pub fn run(c: &mut Ctx) -> R {
    let Some(mut g) = Giant::new(c) else { return Ok(()) };
    let n = g.len;
    let prop = c.prop;
    for _ in 0..24 {
        let i = g.index(c);
        c.sig(i as u64);
        let m = g.mark(i);
        let mut v = g.b.view_mut();
        let r = g.b.view();
        c.ok(v.len() == n && r.len() == n && v.as_slice().len() == n && r.as_slice().len() == n, "giant-length", || format!("views of {n} elements report {} and {}", v.len(), r.len()))?;
        match prop {
            "C02" => {
                let (a, b) = (v.get(i), r.get(i));
                c.ok(a == Ok(m) && b == Ok(m), "giant-read", || format!("get({i}) on length {n}: {a:?} {b:?}, expected {m:?}"))?;
                let u = unsafe { r.get_unchecked(i) };
                c.ok(u == m, "giant-read", || format!("get_unchecked({i}) on length {n}: {u:?}, expected {m:?}"))?;
                g.tag += 1.0;
                let x = g.tag;
                let w = if c.rng.chance(1, 4) {
                    unsafe { v.assign_unchecked(i, x) };
                    Ok(())
                } else {
                    v.assign(i, x)
                };
                g.model.insert(i, x);
                let now = g.b.get(i);
                c.ok(w == Ok(()) && now == x, "giant-write", || format!("assign({i}) on length {n}: {w:?}, the element is {now:?}, expected {x:?}"))?;
                for over in [n, n + 1, n + i, n | 1 << 40, usize::MAX - i] {
                    let (a, b) = (r.get(over), v.assign(over, -1.0));
                    c.ok(a == Err(IndexOutOfBound) && b == Err(IndexOutOfBound), "giant-refusal", || format!("get/assign({over}) on length {n}: {a:?} {b:?}"))?;
                }
            }
            "C03" => {
                let o = i;
                let fit = n - o;
                let l = match c.rng.below(4) {
                    0 => fit,
                    1 => fit.min(1 + c.rng.usize(1000)),
                    2 => fit.saturating_sub(c.rng.usize(5)).max(1),
                    _ => 1 + c.rng.usize(fit),
                };
                let base = g.b.ptr() as usize;
                let s = v.get_sub_slice(o, l);
                let Ok(mut s) = s else { return Err(viol("giant-refused", format!("get_sub_slice({o},{l}) of {n} elements was refused"))) };
                let p = s.as_slice() as *const f32 as usize;
                c.ok(p == base + 4 * o && s.len() == l, "giant-window", || format!("get_sub_slice({o},{l}) of {n} elements starts at {} with length {}", (p as i64 - base as i64) / 4, s.len()))?;
                g.mark(o + l - 1);
                let (a, b) = (s.get(0), s.get(l - 1));
                let (wa, wb) = (g.at(o), g.at(o + l - 1));
                c.ok(a == Ok(wa) && b == Ok(wb), "giant-element", || format!("sub-view ({o},{l}) of {n} elements: ends {a:?} {b:?}, expected {wa:?} {wb:?}"))?;
                let e = s.get(l);
                c.ok(e == Err(IndexOutOfBound), "giant-bound", || format!("sub-view ({o},{l}): get({l}) gave {e:?}"))?;
                let k = c.rng.pick(&[0, l - 1, l / 2]);
                g.tag += 1.0;
                let x = g.tag;
                let w = s.assign(k, x);
                g.model.insert(o + k, x);
                let now = g.b.get(o + k);
                c.ok(w == Ok(()) && now == x, "giant-alias", || format!("sub-view ({o},{l}): assign({k}) gave {w:?}, the parent's element {} is {now:?}", o + k))?;
                // a view of the view
                let o2 = c.rng.usize(l);
                let l2 = l - o2;
                let t = s.get_sub_slice(o2, l2);
                let p = t.map(|t| t.as_slice() as *const f32 as usize);
                c.ok(p == Ok(base + 4 * (o + o2)), "giant-window", || format!("get_sub_slice({o2},{l2}) of the sub-view at {o} of {n} elements is at {p:?}"))?;
                for (o, l, want) in [(o, fit + 1, LengthOutOfBound), (o, usize::MAX - o, LengthOutOfBound), (n, 0, IndexOutOfBound), (n + o, 1, IndexOutOfBound), (o, (1 << 32) + fit, LengthOutOfBound), (o, (1 << 16) + fit, LengthOutOfBound)] {
                    let r = v.get_sub_slice(o, l).err();
                    c.ok(r.as_ref() == Some(&want), "giant-refusal", || format!("get_sub_slice({o},{l}) of {n} elements gave {r:?}, expected {want:?}"))?;
                }
            }
            "C04" => {
                for t in [0i128, 1, -1, 2, -2, 3, 40, -40, 1 << 20, -(1 << 20)] {
                    let at = i as i128 + t * n as i128;
                    if at.abs() >= isize::MAX as i128 {
                        continue;
                    }
                    let at = at as isize;
                    let x = r.get_wrapped(at);
                    c.ok(x == m, "giant-single", || format!("length {n}: get_wrapped({at}) = {x:?}, expected {m:?}"))?;
                    let back = c.rng.range(0, 3) as isize;
                    let f = v.get_slice_of_four_wrapped(at - back);
                    for k in 0..4 {
                        let e = g.at(((at - back + k) as i128).rem_euclid(n as i128) as usize);
                        c.ok(f[k as usize] == e, "giant-four", || format!("length {n}: get_slice_of_four_wrapped({})[{k}] = {:?}, expected {e:?}", at - back, f[k as usize]))?;
                    }
                }
            }
            _ => {
                // interpolating reads at positions whose fraction f32 can hold; checked reads also
                // at whole positions beyond that
                let p = if prop == "C06" { (i % (1 << 22)) as f32 } else { i as f32 };
                let q = p as usize;
                if q + 200 >= n || q > 1 << 31 {
                    continue;
                }
                let mq = g.mark(q);
                if prop == "C05" {
                    let a = r.lerp_(p);
                    let b = if q < 1 << 22 { r.lerp_wrapped_(p) } else { mq };
                    c.ok(a == Ok(mq) && b == mq, "giant-integer", || format!("length {n}: position {p:?} read {a:?} and {b:?}, the element is {mq:?}"))?;
                    // backwards from the seam
                    let s = -(c.rng.range(1, 60) as f32);
                    let e = (n as i64 + s as i64) as usize;
                    let me = g.mark(e);
                    let b = r.lerp_wrapped_(s);
                    c.ok(b == me, "giant-integer", || format!("length {n}: wrapped position {s:?} read {b:?}, the element is {me:?}"))?;
                    if q < 1 << 22 {
                        let nx = g.mark(q + 1);
                        let mq = g.at(q);
                        let h = p + 0.5;
                        let (a, b) = (r.lerp_(h), r.lerp_wrapped_(h));
                        let want = (mq as f64 + nx as f64) / 2.0;
                        c.near(b as f64, want, 1e-5 * want, "giant-half", || format!("length {n}: wrapped position {h:?}"))?;
                        c.ok(a == Ok(b), "giant-half", || format!("length {n}: position {h:?} read {a:?}, wrapped {b:?}"))?;
                    }
                } else {
                    let w = 2 + c.rng.usize(7);
                    let (a, b) = (r.lag_(p, w), v.lag4_(p));
                    // the four-point form is centred one sample later
                    c.near(a as f64, mq as f64, 1e-4 * (1.0 + g.tag as f64), "giant-node", || format!("length {n}: window {w} at {p:?}"))?;
                    c.near(b as f64, mq as f64, 1e-4 * (1.0 + g.tag as f64), "giant-node", || format!("length {n}: four points at {p:?}"))?;
                }
            }
        }
        if i >= 1 << 32 {
            c.cov("index beyond 32 bits");
        } else if i >= 1 << 16 {
            c.cov("index beyond 16 bits");
        }
    }
    g.check(c)?;
    c.nontrivial();
    c.sample(|| format!("buffer of {n} elements, {} tagged", g.model.len()));
    Ok(())
}
