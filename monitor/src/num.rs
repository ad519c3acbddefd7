//! C22-C35: conversions, numeric approximations, interpolation, panning and clipping.
use crate::core::*;
use crate::Prop;
use embedded_audio_tools::convert::{Decibels, FromF32Components, FromRawBytes, ToF32Components, ToRawBytes};
use embedded_audio_tools::dynamics::{digital_clip, poly_clip, sigmoid_clip, tanh_clip};
use embedded_audio_tools::errors::{BitReductionError, InterpolationError, PanningError};
use embedded_audio_tools::fixed_point::math::{sin_i16, sin_i16_unchecked};
use embedded_audio_tools::float::{
    bit_reduce, bit_reduce_exp, bit_reduce_exp_unchecked, bit_reduce_unchecked, lagrange, lagrange_only_4_elements, lerp, lerp_unchecked, AdditionalF32Ext, DSPUtility,
};
use embedded_audio_tools::stereo::{crossfade_correlated_unchecked, mono_pan, mono_pan_unchecked, stereo_pan, stereo_pan_unchecked};
use std::num::FpCategory;
use std::sync::{LazyLock, OnceLock};

/// blocks of the f32 pattern space: one per upper half-word
const BLOCKS: u64 = 65536;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            run: c22,
            cases: BLOCKS,
            systematic: BLOCKS,
            miri: 4,
            serial: false,
            rule: "A case is one block of 2^16 consecutive f32 patterns (quick: a strided subset; thorough: all), each judged as a ratio and as a decibel value. Non-trivial: patterns that are ratios > 0 or decibel values in range; distinct by pattern.",
            required: &["ratio >= 1", "ratio < 1", "zero", "minus zero", "negative ratio", "nan ratio", "infinite ratio", "subnormal ratio", "decibel value", "minus infinity dB", "monotone pair"],
        },
        Prop {
            id: "C23",
            run: c23,
            cases: BLOCKS,
            systematic: BLOCKS,
            miri: 4,
            serial: false,
            rule: "A case is one block of 2^16 consecutive f32 patterns, each converted every way; all 65536 blocks are run. Non-trivial and distinct: every pattern.",
            required: &["nan", "infinite", "zero", "subnormal", "normal"],
        },
        Prop {
            id: "C24",
            run: c24,
            cases: BLOCKS,
            systematic: BLOCKS,
            miri: 4,
            serial: false,
            rule: "A case is one block of f32 patterns within [-1, 1] at a bit depth per block and position (quick: strided), compared with the exact integer model in both signs. Non-trivial: depth > 0; distinct by pattern.",
            required: &["depth 0", "depth 1", "depth 30", "over-reduction", "too large", "too small", "exactly 1", "below one step", "monotone pair", "checked ok"],
        },
        Prop {
            id: "C25",
            run: c25,
            cases: BLOCKS,
            systematic: BLOCKS,
            miri: 4,
            serial: false,
            rule: "A case is one block of 2^16 consecutive f32 patterns, each at a depth that varies with the pattern and the seed. Non-trivial: depth > 0; distinct by pattern.",
            required: &["depth 0", "depth 1", "depth 22", "depth 23", "over-reduction", "nan", "infinite", "subnormal", "negative"],
        },
        Prop {
            id: "C26",
            run: c26,
            cases: 4_000_000,
            systematic: 400,
            miri: 20,
            serial: false,
            rule: "A case interpolates several pairs of values at positions including both ends and every error class. Non-trivial: unequal finite ends at an inner position; distinct by operands.",
            required: &["at 0", "at 1", "inner", "minus zero position", "nan a", "nan b", "inf a", "inf b", "nan and inf", "below range", "above range", "nan position", "nan input and bad position", "inf input and bad position", "inf position", "subnormal", "large", "sum or difference overflows"],
        },
        Prop {
            id: "C27",
            run: c27,
            cases: 1_000_000,
            systematic: 400,
            miri: 12,
            serial: false,
            rule: "A case interpolates one array of 1 to 20 samples at every node, between nodes and beyond the last node. Non-trivial: at least three elements; distinct by contents.",
            required: &["one element", "two elements", "four elements", "twenty elements", "node", "between", "before the first node", "refused", "just beyond", "four-element form", "other scale"],
        },
        Prop {
            id: "C28",
            run: c28,
            cases: 257,
            systematic: 257,
            miri: 1,
            serial: false,
            rule: "A case is one degree with all 65536 phases; all 256 degrees are run, then a compile-time table is compared. Non-trivial and distinct: every phase and degree.",
            required: &["degree 0", "degree 1", "degree 2", "degree 3", "degree 4", "degree > 4", "compile time"],
        },
        Prop {
            id: "C29",
            run: c29,
            cases: 60_000,
            systematic: 2_000,
            miri: 4,
            serial: false,
            rule: "A case judges sine and cosine approximations at a few hundred angles (dense near multiples of pi/2, log-spread magnitudes, consecutive floats). Non-trivial: every angle other than 0; distinct by angle.",
            required: &["angle up to 10", "angle up to 10000", "negative", "near multiple of pi/2", "tiny", "periodic", "table rising", "table falling"],
        },
        Prop {
            id: "C30",
            run: c30,
            cases: 60_000,
            systematic: 2_000,
            miri: 4,
            serial: false,
            rule: "A case judges tan, sinh, cosh and tanh approximations at a few hundred arguments. Non-trivial: every nonzero argument; distinct by argument.",
            required: &["tan up to 0.5", "tan up to 1", "tan up to pi/2", "tan rising", "sinh", "cosh", "sinh 80", "tanh up to 0.25", "tanh up to 1", "tanh large", "zero", "tiny"],
        },
        Prop {
            id: "C31",
            run: c31,
            cases: 200_000,
            systematic: 2_000,
            miri: 1,
            serial: false,
            rule: "A case judges sinc at 40 arguments and the sine integral at one argument and its negative. Non-trivial: every nonzero argument; distinct by argument.",
            required: &["sinc 0", "sinc minus 0", "sinc tiny", "sinc large", "sinc near multiple of pi", "si", "si 0", "si below 1", "si above 50", "si odd", "si tiny"],
        },
        Prop {
            id: "C32",
            run: c32,
            cases: BLOCKS,
            systematic: BLOCKS,
            miri: 6,
            serial: false,
            rule: "A case is one block of 2^16 consecutive f32 patterns (quick: strided), each read from the band-limited rectangle and compared with the sine integral of its quarter. Non-trivial: patterns in (0, 1); distinct by pattern.",
            required: &["first quarter", "second quarter", "third quarter", "fourth quarter", "at 0", "at 0.25", "at 0.5", "at 0.75", "at 1", "negative", "above 1", "nan", "infinite", "neighbours of a corner"],
        },
        Prop {
            id: "C33",
            run: c33,
            cases: 2_400_000,
            systematic: 400,
            miri: 20,
            serial: false,
            rule: "A case converts a few values at one sample rate in all four directions and back. Non-trivial: nonzero values; distinct by value and rate.",
            required: &["zero", "negative", "integer samples", "fraction", "large", "odd rate", "extreme rate"],
        },
        Prop {
            id: "C34",
            run: c34,
            cases: 3_000_000,
            systematic: 400,
            miri: 20,
            serial: false,
            rule: "A case pans a few samples at positions over the whole range, its ends and beyond. Non-trivial: nonzero samples at inner positions; distinct by position and samples.",
            required: &["hard left", "hard right", "centre", "inner", "just inside", "too left", "too right", "infinite position", "monotone pair", "mirror", "left silent", "right silent"],
        },
        Prop {
            id: "C35",
            run: c35,
            cases: BLOCKS,
            systematic: BLOCKS,
            miri: 4,
            serial: false,
            rule: "A case is one block of 2^16 consecutive f32 patterns (digital clipper: all; other clippers: a strided subset). Non-trivial: every non-NaN pattern; distinct by pattern.",
            required: &["above 1", "below -1", "inside", "exactly 1", "exactly -1", "infinite", "tanh clip", "poly clip", "sigmoid clip", "soft inside"],
        },
    ]
}

/// The low halves of the patterns with the given high half that are numbers people use, or their
/// neighbours: whole numbers, simple fractions and decimals, parts of a turn, gains of whole decibels.
fn numbers(block: u16) -> &'static [u16] {
    static ALL: OnceLock<Vec<Vec<u16>>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v: Vec<Vec<u16>> = vec![vec![]; 1 << 16];
        let mut add = |x: f64| {
            for y in [x as f32, -x as f32] {
                for b in [y.to_bits() - 1, y.to_bits(), y.to_bits() + 1] {
                    v[(b >> 16) as usize].push(b as u16);
                }
            }
        };
        for k in 1..=4096 {
            let k = k as f64;
            for d in [1.0, 10.0, 100.0, 1000.0, 3.0, 7.0, 64.0, 512.0, 4096.0, 32767.0, 32768.0, 44_100.0, 48_000.0] {
                add(k / d);
            }
            add(k * 10.0);
            add(k * 100.0);
            add(k * std::f64::consts::PI / 24.0);
            add(k * 65536.0);
        }
        for k in -1200..=1200 {
            add(10f64.powf(k as f64 / 40.0));
        }
        for e in -126..=127 {
            for m in [1.0, 1.25, 1.5, 1.75, 1.2, 1.4, std::f64::consts::SQRT_2] {
                add(m * 2f64.powi(e));
            }
        }
        for x in &mut v {
            x.sort();
            x.dedup();
        }
        v
    });
    &all[block as usize]
}

/// Visit patterns of block `case` in increasing order: all of them, or every `stride`-th from a
/// random start, always with the first and last of the block.
fn sweep(c: &mut Ctx, quick_stride: u32, mut f: impl FnMut(&mut Ctx, u32) -> R) -> R {
    let stride = if c.small() {
        4001
    } else if c.thorough {
        1
    } else {
        quick_stride
    };
    let block = if c.small() {
        // Miri shards look at scattered blocks
        mix(c.case ^ c.seed) as u32 & 0xffff
    } else {
        (c.case % BLOCKS) as u32
    };
    let base = block << 16;
    let off = if stride == 1 { 0 } else { c.rng.below(stride as u64) as u32 };
    let mut n = 0u64;
    if off != 0 {
        f(c, base)?;
        n += 1;
    }
    let mut round: &[u16] = if stride > 1 && !c.small() { numbers(block as u16) } else { &[] };
    let mut i = off;
    while i <= 0xffff {
        while let Some((&x, rest)) = round.split_first() {
            if x as u32 > i {
                break;
            }
            if x as u32 != i && x != 0 && x != 0xffff {
                f(c, base | x as u32)?;
                n += 1;
            }
            round = rest;
        }
        f(c, base | i)?;
        n += 1;
        i += stride;
    }
    for &x in round {
        if x != 0xffff {
            f(c, base | x as u32)?;
            n += 1;
        }
    }
    if (i - stride) != 0xffff {
        f(c, base | 0xffff)?;
        n += 1;
    }
    c.sig(base as u64);
    c.obs.enumerated += n;
    c.sample(|| format!("patterns {base:#010x}..={:#010x}, every {stride} from {off}", base | 0xffff));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Decibels

fn c22(c: &mut Ctx) -> R {
    let mut prev: Option<(f32, f32)> = None;
    sweep(c, 16, |c, b| {
        let x = f32::from_bits(b);
        let u = x.to_decibels_unchecked();
        let e = x.to_decibels();
        let k = x.to_decibels_checked();
        c.obs.evals += 3;
        if x.is_nan() || x < 0.0 {
            c.cov(if x.is_nan() { "nan ratio" } else { "negative ratio" });
            if !x.is_nan() && !u.is_nan() {
                return Err(viol("negative", format!("ratio {x:?} (bits {b:#x}) is {u:?} dB, expected NaN")));
            }
            if e != Err(FpCategory::Nan) || k != Err(FpCategory::Nan) {
                return Err(viol("category", format!("ratio {x:?} (bits {b:#x}): checked forms gave {e:?} and {k:?}, expected Err(Nan)")));
            }
        } else if x == 0.0 {
            c.cov(if x.is_sign_negative() { "minus zero" } else { "zero" });
            if u != f32::NEG_INFINITY || e != Ok(f32::NEG_INFINITY) || k != Err(FpCategory::Infinite) {
                return Err(viol("zero", format!("ratio {x:?}: {u:?}, {e:?}, {k:?}; expected -inf, Ok(-inf), Err(Infinite)")));
            }
        } else {
            for (r, n) in [(e, "to_decibels"), (k, "to_decibels_checked")] {
                match r {
                    Ok(v) if v.to_bits() == u.to_bits() && !v.is_nan() => {}
                    r => return Err(viol("checked", format!("{n} of {x:?} (bits {b:#x}) gave {r:?}, unchecked {u:?}"))),
                }
            }
            if x.is_infinite() {
                c.cov("infinite ratio");
                if u != f32::INFINITY {
                    return Err(viol("infinite", format!("infinite ratio is {u:?} dB")));
                }
            } else {
                let want = 20.0 * (x as f64).log10();
                let tol = if x >= 1.0 {
                    c.cov("ratio >= 1");
                    0.002
                } else {
                    c.cov("ratio < 1");
                    1.05
                };
                if x < f32::MIN_POSITIVE {
                    c.cov("subnormal ratio");
                    // far below anything audible; the approximation does not normalise the mantissa
                    if !(u < -750.0) {
                        return Err(viol("decibels", format!("ratio {x:?} (bits {b:#x}) is {u:?} dB, expected {want:?}")));
                    }
                } else if !((u as f64 - want).abs() <= tol) {
                    return Err(viol("decibels", format!("ratio {x:?} (bits {b:#x}) is {u:?} dB, expected {want:?} +-{tol}")));
                }
                if let Some((px, pu)) = prev {
                    c.cov("monotone pair");
                    if !(u >= pu - 0.005) {
                        return Err(viol("monotone", format!("ratio {px:?} is {pu:?} dB but the larger {x:?} is {u:?} dB")));
                    }
                }
                prev = Some((x, u));
            }
        }
        // as decibels
        if x == f32::NEG_INFINITY {
            c.cov("minus infinity dB");
            let v = x.to_volt_ratio();
            if v != 0.0 {
                return Err(viol("ratio", format!("-inf dB is ratio {v:?}")));
            }
        } else if x.abs() <= 700.0 {
            c.cov("decibel value");
            let v = x.to_volt_ratio() as f64;
            let want = 10f64.powf(x as f64 / 20.0);
            c.obs.evals += 1;
            if !((v - want).abs() <= want * 0.004) {
                return Err(viol("ratio", format!("{x:?} dB (bits {b:#x}) is ratio {v:?}, expected {want:?} +-0.4%")));
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// IEEE-754

fn c23(c: &mut Ctx) -> R {
    let (mut na, mut inf, mut ze, mut sub, mut nor) = (0, 0, 0, 0, 0);
    let r = sweep(c, 1, |c, b| {
        // opaque, so that the conversions are executed rather than folded away
        let b = std::hint::black_box(b);
        let x = f32::from_bits(b);
        match x.classify() {
            FpCategory::Nan => na += 1,
            FpCategory::Infinite => inf += 1,
            FpCategory::Zero => ze += 1,
            FpCategory::Subnormal => sub += 1,
            FpCategory::Normal => nor += 1,
        }
        c.obs.evals += 7;
        let w = x.to_raw_word();
        if w != b {
            return Err(viol("raw", format!("pattern {b:#010x} became raw word {w:#010x}")));
        }
        let y = <f32 as FromRawBytes>::from_raw_word(b);
        if y.to_bits() != b {
            return Err(viol("raw", format!("raw word {b:#010x} became pattern {:#010x}", y.to_bits())));
        }
        let (s, e, m) = (b >> 31 == 1, (b >> 23) as u8, b & 0x7f_ffff);
        let k = x.to_f32_components();
        if k.sign != s || k.exponent != e || k.mantissa != m {
            return Err(viol("components", format!("float {b:#010x} decomposed into {k:?}, expected {s} {e} {m}")));
        }
        let q = b.to_f32_components();
        if q.sign != s || q.exponent != e || q.mantissa != m {
            return Err(viol("components", format!("word {b:#010x} decomposed into {q:?}, expected {s} {e} {m}")));
        }
        let z = <f32 as FromF32Components>::from_f32_components(k);
        if z.to_bits() != b {
            return Err(viol("recompose", format!("components of {b:#010x} recomposed into float {:#010x}", z.to_bits())));
        }
        let v = <u32 as FromF32Components>::from_f32_components(q);
        if v != b {
            return Err(viol("recompose", format!("components of {b:#010x} recomposed into word {v:#010x}")));
        }
        Ok(())
    });
    c.covn("nan", na);
    c.covn("infinite", inf);
    c.covn("zero", ze);
    c.covn("subnormal", sub);
    c.covn("normal", nor);
    r
}

// ---------------------------------------------------------------------------------------------
// Bit reduction

fn linear_model(x: f32, d: u8) -> f64 {
    if d == 0 {
        return x as f64;
    }
    let step = 2f64.powi(d as i32 - 31);
    ((x.abs() as f64 / step).floor() * step).copysign(x as f64)
}

fn c24(c: &mut Ctx) -> R {
    // the block decides the region: mostly magnitudes that survive quantisation
    let block = c.case % BLOCKS;
    let one = 0x3f80_0000u32; // patterns 0..=one are [0, 1]
    let lo = (block as u128 * (one as u128 + 1) / BLOCKS as u128) as u32;
    let hi = ((block as u128 + 1) * (one as u128 + 1) / BLOCKS as u128) as u32;
    let d = if c.rng.chance(1, 6) { c.rng.pick(&[0u8, 1, 2, 8, 15, 16, 23, 24, 29, 30]) } else { c.rng.below(31) as u8 };
    let stride = if c.small() {
        997
    } else if c.thorough {
        1
    } else {
        8
    };
    let mut b = lo + if stride > 1 { c.rng.below(stride as u64) as u32 } else { 0 };
    let mut prev: Option<(f32, f32)> = None;
    c.cov(match d {
        0 => "depth 0",
        1 => "depth 1",
        30 => "depth 30",
        _ => "other depths",
    });
    let mut n = 0;
    let visit = |c: &mut Ctx, b: u32, d: u8, prev: &mut Option<(f32, f32)>| -> R {
        let x = f32::from_bits(b);
        let y = bit_reduce_unchecked(x, d);
        let want = linear_model(x, d);
        c.obs.evals += 3;
        if y as f64 != want {
            return Err(viol("linear", format!("{x:?} (bits {b:#x}) reduced by {d} bits is {y:?}, expected {want:?}")));
        }
        let m = bit_reduce_unchecked(-x, d);
        if m != -y {
            return Err(viol("odd", format!("{x:?} reduced by {d} is {y:?}, but its negative gives {m:?}")));
        }
        let again = bit_reduce_unchecked(y, d);
        if again != y {
            return Err(viol("idempotent", format!("{x:?} reduced by {d} is {y:?}, reduced again {again:?}")));
        }
        for (v, w) in [(x, y), (-x, m)] {
            match bit_reduce(v, d) {
                Ok(z) if z == w => {}
                Ok(z) => return Err(viol("checked", format!("{v:?} by {d}: checked {z:?}, unchecked {w:?}"))),
                Err(_) => return Err(viol("checked", format!("{v:?} by {d} bits was refused"))),
            }
        }
        if let Some((px, py)) = *prev {
            if y < py {
                return Err(viol("monotone", format!("by {d} bits: {px:?} gives {py:?}, the larger {x:?} gives {y:?}")));
            }
            c.cov("monotone pair");
        }
        *prev = Some((x, y));
        Ok(())
    };
    while b < hi {
        visit(c, b, d, &mut prev)?;
        n += 1;
        b += stride;
    }
    c.obs.enumerated += n;
    c.covn("checked ok", n);
    // every depth on a few values, the grid points themselves and their neighbours
    for d in 0..=30u8 {
        let k = c.rng.u64() >> (33 + c.rng.below(20));
        let grid = ((k >> d << d) as f64 * 2f64.powi(-31)).min(1.0) as f32;
        for x in [grid, next_down(grid).max(0.0), next_up(grid).min(1.0), c.rng.f(0.0, 1.0), 1.0, 0.0, next_down(1.0)] {
            let mut none = None;
            visit(c, x.to_bits(), d, &mut none)?;
            if x == 1.0 {
                c.cov("exactly 1");
            }
            if d > 0 && x > 0.0 && (x as f64) < 2f64.powi(d as i32 - 31) {
                c.cov("below one step");
            }
        }
    }
    // refusals
    let x = c.rng.f(-1.0, 1.0);
    let d = c.rng.range(31, 255) as u8;
    for d in [31, d] {
        let over = matches!(bit_reduce(x, d), Err(BitReductionError::OverBitReduction));
        c.ok(over, "over", || format!("{x:?} by {d} bits was not refused as over-reduction"))?;
    }
    c.cov("over-reduction");
    let d = c.rng.below(31) as u8;
    let big = c.rng.pick(&[next_up(1.0), 1.5, 2.0, 1e30, f32::MAX, f32::INFINITY, c.rng.clone().logf(1.000001, 1e6)]);
    let r = matches!(bit_reduce(big, d), Err(BitReductionError::InputExceedsRange));
    c.ok(r, "range", || format!("{big:?} by {d} bits was not refused as out of range"))?;
    c.cov("too large");
    let r = matches!(bit_reduce(-big, d), Err(BitReductionError::InputExceedsRange));
    c.ok(r, "range", || format!("{:?} by {d} bits was not refused as out of range", -big))?;
    c.cov("too small");
    c.sample(|| format!("patterns {lo:#x}..{hi:#x} at depth {d}"));
    Ok(())
}

fn c25(c: &mut Ctx) -> R {
    let salt = c.seed;
    let mut depths = [0u64; 24];
    let (mut na, mut inf, mut sub, mut neg) = (0, 0, 0, 0);
    let r = sweep(c, 3, |c, b| {
        let x = f32::from_bits(b);
        let d = (mix(b as u64 ^ salt << 32) % 24) as u8;
        depths[d as usize] += 1;
        match x.classify() {
            FpCategory::Nan => na += 1,
            FpCategory::Infinite => inf += 1,
            FpCategory::Subnormal => sub += 1,
            _ => {}
        }
        neg += (b >> 31) as u64;
        let want = if d == 0 { b } else { (b & 0xff80_0000) | ((b & 0x7f_ffff) >> d << d) };
        let y = bit_reduce_exp_unchecked(x, d).to_bits();
        c.obs.evals += 2;
        if y != want {
            return Err(viol("mantissa", format!("pattern {b:#010x} with {d} bits cleared is {y:#010x}, expected {want:#010x}")));
        }
        match bit_reduce_exp(x, d) {
            Ok(z) if z.to_bits() == want => Ok(()),
            Ok(z) => Err(viol("checked", format!("pattern {b:#010x} with {d} bits: checked {:#010x}, expected {want:#010x}", z.to_bits()))),
            Err(_) => Err(viol("checked", format!("pattern {b:#010x} with {d} bits was refused"))),
        }
    });
    c.covn("depth 0", depths[0]);
    c.covn("depth 1", depths[1]);
    c.covn("depth 22", depths[22]);
    c.covn("depth 23", depths[23]);
    c.covn("nan", na);
    c.covn("infinite", inf);
    c.covn("subnormal", sub);
    c.covn("negative", neg);
    r?;
    let x = c.rng.bits();
    for d in [24u8, 25, 31, 32, c.rng.range(24, 255) as u8, 255] {
        let over = matches!(bit_reduce_exp(x, d), Err(BitReductionError::OverBitReduction));
        c.ok(over, "over", || format!("{x:?} with {d} bits was not refused as over-reduction"))?;
        c.cov("over-reduction");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Interpolation

fn c26(c: &mut Ctx) -> R {
    for _ in 0..6 {
        let val = |c: &mut Ctx| -> f32 {
            match c.rng.below(8) {
                0 => c.rng.logf(1e-45, 1e-38),
                1 => c.rng.logf(1e30, 1e38) * c.rng.pick(&[1.0f32, -1.0]),
                // so large that the sum or the difference of two of them is not a number any more
                7 => c.rng.logf(1e37, 3.4e38) * c.rng.pick(&[1.0f32, -1.0]),
                2 => c.rng.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5]),
                3 => c.rng.finite() * 0.25,
                _ => c.rng.sample(),
            }
        };
        let (a, b) = (val(c), val(c));
        if (a + b).is_infinite() || (a - b).is_infinite() {
            c.cov("sum or difference overflows");
        }
        let t = match c.rng.below(8) {
            0 => 0.0f32,
            1 => 1.0,
            2 => -0.0,
            3 => c.rng.logf(1e-45, 1e-3),
            4 => 1.0 - c.rng.logf(1e-7, 1e-3),
            5 => c.rng.pick(&[0.5f32, 0.25, 0.75, next_down(1.0), next_up(0.0)]),
            _ => c.rng.f(0.0, 1.0),
        };
        c.sigf(a);
        c.sigf(b);
        c.sigf(t);
        if a.abs() < f32::MIN_POSITIVE && a != 0.0 {
            c.cov("subnormal");
        }
        if a.abs() > 1e30 {
            c.cov("large");
        }
        let y = lerp_unchecked(a, b, t);
        let (ad, bd, td) = (a as f64, b as f64, t as f64);
        let want = ad * (1.0 - td) + bd * td;
        let tol = 3.0 * EPS * (ad.abs() * (1.0 - td) + bd.abs() * td) + EPS * ad.abs() + 3e-45;
        let desc = || format!("between {a:?} and {b:?} at {t:?}");
        if t == 0.0 {
            c.cov(if t.is_sign_negative() { "minus zero position" } else { "at 0" });
            c.ok(y == a, "end", || format!("{} gave {y:?}", desc()))?;
        } else if t == 1.0 {
            c.cov("at 1");
            c.ok(y == b, "end", || format!("{} gave {y:?}", desc()))?;
        } else {
            c.cov("inner");
            c.near(y as f64, want, tol, "value", desc)?;
            let (lo, hi) = (ad.min(bd), ad.max(bd));
            c.ok(y as f64 >= lo - tol && y as f64 <= hi + tol, "outside", || format!("{} gave {y:?}", desc()))?;
            if a != b {
                c.nontrivial();
            }
        }
        match lerp(a, b, t) {
            Ok(z) => c.ok(z == y, "checked", || format!("{}: checked {z:?}, unchecked {y:?}", desc()))?,
            Err(e) => return Err(viol("checked", format!("{} was refused: {e:?}", desc()))),
        }
        // refusals
        let nan = f32::from_bits(0x7f80_0001 | (c.rng.u32() & 0x807f_ffff));
        let inf = c.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY]);
        let bad = match c.rng.below(6) {
            0 => next_up(1.0),
            1 => -f32::from_bits(1),
            2 => c.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY]),
            3 => f32::NAN,
            4 => c.rng.logf(1.001, 1e30),
            _ => -c.rng.logf(1e-30, 1e30),
        };
        use InterpolationError::*;
        let expect = |c: &mut Ctx, label: &'static str, a: f32, b: f32, t: f32, want: InterpolationError| -> R {
            c.cov(label);
            let r = lerp(a, b, t);
            c.ok(r == Err(want), "error", || format!("lerp({a:?}, {b:?}, {t:?}) gave {r:?} ({label})"))
        };
        expect(c, "nan a", nan, b, t, InputNaN)?;
        expect(c, "nan b", a, nan, t, InputNaN)?;
        expect(c, "inf a", inf, b, t, InputInfinite)?;
        expect(c, "inf b", a, inf, t, InputInfinite)?;
        expect(c, "nan and inf", inf, nan, t, InputNaN)?;
        expect(c, "nan and inf", nan, inf, t, InputNaN)?;
        expect(c, "nan input and bad position", nan, b, bad, InputNaN)?;
        expect(c, "nan input and bad position", a, nan, bad, InputNaN)?;
        expect(c, "inf input and bad position", a, inf, bad, InputInfinite)?;
        expect(c, "inf input and bad position", inf, b, bad, InputInfinite)?;
        let label = if bad.is_nan() {
            "nan position"
        } else if bad.is_infinite() {
            "inf position"
        } else if bad < 0.0 {
            "below range"
        } else {
            "above range"
        };
        expect(c, label, a, b, bad, InterpolationRange)?;
        c.sample(|| format!("{a:?} to {b:?} at {t:?} gave {y:?}, refused at {bad:?}"));
    }
    Ok(())
}

fn c27(c: &mut Ctx) -> R {
    let n = match c.rng.below(8) {
        0 => c.rng.pick(&[1usize, 2, 3, 4]),
        1 => 20,
        2 | 3 => 4,
        _ => 1 + c.rng.usize(20),
    };
    match n {
        1 => c.cov("one element"),
        2 => c.cov("two elements"),
        4 => c.cov("four elements"),
        20 => c.cov("twenty elements"),
        _ => {}
    }
    let mut s: Vec<f32> = match c.rng.below(4) {
        0 => {
            let k = c.rng.usize(n);
            (0..n).map(|i| if i == k { 1.0 } else { 0.0 }).collect()
        }
        1 => {
            let (p, q, r) = (c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0), c.rng.f(-1.0, 1.0));
            (0..n).map(|i| p + q * i as f32 + r * (i * i) as f32).collect()
        }
        _ => (0..n).map(|_| c.rng.f(-10.0, 10.0)).collect(),
    };
    if c.rng.chance(1, 4) {
        // very quiet or very loud, all of it or single samples
        let (g, all) = (c.rng.logf(1e-18, 1e6), c.rng.chance(1, 2));
        for v in s.iter_mut() {
            if all || c.rng.chance(1, 2) {
                *v *= g;
            }
        }
        c.cov("other scale");
    }
    for v in &s {
        c.sigf(*v);
    }
    let s64: Vec<f64> = s.iter().map(|v| *v as f64).collect();
    let last = (n - 1) as f32;
    let judge = |c: &mut Ctx, x: f32| -> R {
        let (want, cond) = lagrange64(&s64, x as f64);
        let tol = 8.0 * n as f64 * EPS * cond + 1e-30;
        let y = lagrange(&s, x);
        c.near(y as f64, want, tol, "polynomial", || format!("{n} elements {s:?} at {x:?}"))?;
        if n == 4 {
            c.cov("four-element form");
            let z = unsafe { lagrange_only_4_elements(&s, x) };
            c.near(z as f64, want, tol, "four", || format!("four-element form on {s:?} at {x:?}"))?;
        }
        Ok(())
    };
    for i in 0..n {
        judge(c, i as f32)?;
        c.cov("node");
    }
    for k in 0..8 {
        let x = match k {
            0 => next_down(last),
            1 => next_up(0.0),
            2 => c.rng.usize(n) as f32 + 0.5,
            _ => c.rng.f(0.0, last as f64),
        }
        .min(last);
        judge(c, x)?;
        c.cov("between");
    }
    judge(c, -c.rng.clone().f(0.0, 2.0))?;
    let far = c.rng.logf(1.0, 1000.0);
    for x in [-((1 + c.rng.usize(n)) as f32), -far, -far.floor(), -0.0f32] {
        // no product along the way may overflow
        let largest = s64.iter().fold(1.0f64, |m, v| m.max(v.abs())) * (x.abs() as f64 + n as f64).powi(n as i32);
        if largest < 1e37 {
            judge(c, x.min(last))?;
        }
    }
    c.cov("before the first node");
    for x in [next_up(last.max(f32::MIN_POSITIVE)), last + 1.0, last + c.rng.logf(1e-3, 1e6), f32::INFINITY] {
        if x <= last {
            continue;
        }
        if c.rng.chance(1, 3) {
            c.cov(if x < last + 0.001 { "just beyond" } else { "refused" });
            let r = c.may_panic(|| lagrange(&s, x));
            c.ok(r.is_none(), "beyond", || format!("{n} elements at {x:?} were interpolated to {r:?} instead of refused"))?;
        }
    }
    if n >= 3 {
        c.nontrivial();
    }
    c.sample(|| format!("{n} elements {s:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Integer sine

#[cfg(feature = "ct")]
const CT_N: usize = 513;
#[cfg(feature = "ct")]
#[allow(long_running_const_eval)]
const fn ct_table() -> [[i16; CT_N]; 7] {
    let mut t = [[0i16; CT_N]; 7];
    let mut d = 0;
    while d < 7 {
        let mut i = 0;
        while i < CT_N {
            t[d][i] = sin_i16(ct_phase(i), d as u8);
            i += 1;
        }
        d += 1;
    }
    t
}
#[cfg(feature = "ct")]
const fn ct_phase(i: usize) -> i16 {
    let p = i as i32 * 128 - 32768;
    if p > 32767 {
        32767
    } else {
        p as i16
    }
}
// evaluated by the compiler; built in for C28 only, see ../Cargo.toml
#[cfg(feature = "ct")]
static CT: [[i16; CT_N]; 7] = ct_table();

fn c28(c: &mut Ctx) -> R {
    if c.case == 256 {
        #[cfg(feature = "ct")]
        for d in 0..7u8 {
            for i in 0..CT_N {
                let p = ct_phase(i);
                let (a, b) = (CT[d as usize][i], sin_i16(std::hint::black_box(p), std::hint::black_box(d)));
                c.ok(a == b, "compile-time", || format!("degree {d} phase {p}: compile time {a}, run time {b}"))?;
            }
        }
        #[cfg(feature = "ct")]
        c.cov("compile time");
        return Ok(());
    }
    let d = if c.small() { c.case as u8 % 7 } else { c.case as u8 };
    let bound = [5195.0, 2464.0, 105.0, 9.0, 5.0][d.min(4) as usize];
    let step = if c.small() { 211 } else { 1 };
    let mut prev = -40_000i32;
    let mut p = -32768i32;
    let mut worst = 0.0f64;
    while p <= 32767 {
        let ph = p as i16;
        let y = sin_i16(ph, d);
        let want = 32768.0 * (std::f64::consts::FRAC_PI_2 * p as f64 / 32768.0).sin();
        let e = (y as f64 - want).abs();
        worst = worst.max(e);
        c.obs.evals += 4;
        if !(e <= bound) {
            return Err(viol("accuracy", format!("degree {d} phase {p}: {y}, expected {want:.2} +-{bound}")));
        }
        if (y as i32) < prev - 2 {
            return Err(viol("monotone", format!("degree {d}: phase {p} gives {y} after {prev}")));
        }
        prev = y as i32;
        if p > -32768 {
            let m = sin_i16(-ph, d) as i32;
            if (m + y as i32).abs() > 3 {
                return Err(viol("odd", format!("degree {d}: phase {p} gives {y}, phase {} gives {m}", -p)));
            }
        }
        if d <= 4 {
            let u = unsafe { sin_i16_unchecked(ph, d) };
            if u != y {
                return Err(viol("unchecked", format!("degree {d} phase {p}: checked {y}, unchecked {u}")));
            }
        } else {
            let u = sin_i16(ph, 4);
            if u != y {
                return Err(viol("degree", format!("degree {d} phase {p}: {y}, degree 4 gives {u}")));
            }
        }
        c.obs.enumerated += 1;
        p += step;
    }
    c.sample(|| format!("degree {d}: phases -32768 to 32767 by {step}, worst error {worst:.3}"));
    c.cov(match d {
        0 => "degree 0",
        1 => "degree 1",
        2 => "degree 2",
        3 => "degree 3",
        4 => "degree 4",
        _ => "degree > 4",
    });
    c.max(
        match d {
            0 => "worst error degree 0",
            1 => "worst error degree 1",
            2 => "worst error degree 2",
            3 => "worst error degree 3",
            _ => "worst error degree 4",
        },
        worst,
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Trigonometric, hyperbolic, sinc

fn any_angle(c: &mut Ctx) -> f32 {
    let s = c.rng.pick(&[1.0f32, -1.0]);
    let x = match c.rng.below(10) {
        0 => c.rng.logf(1e-40, 1e-3),
        1 => {
            c.cov("near multiple of pi/2");
            let k = c.rng.below(6366) as f64;
            let x = (k * std::f64::consts::FRAC_PI_2) as f32;
            let mut x = x;
            for _ in 0..c.rng.below(4) {
                x = if c.rng.chance(1, 2) { next_up(x) } else { next_down(x) };
            }
            x
        }
        2 => c.rng.pick(&[0.0f32, 1.0, 2.0, 3.0, 10.0, 100.0, 1000.0, 10000.0]),
        3 => c.rng.f(0.0, 10000.0),
        4 => (c.rng.below(64) as f64 * std::f64::consts::FRAC_PI_2 + c.rng.f(-1e-3, 1e-3) as f64) as f32,
        5 | 6 => c.rng.f(0.0, 100.0),
        _ => c.rng.f(0.0, 10.0),
    };
    s * x.min(10000.0)
}

fn c29(c: &mut Ctx) -> R {
    let n = if c.small() { 20 } else { 200 };
    for _ in 0..n {
        let x = any_angle(c);
        let xd = x as f64;
        c.sigf(x);
        if x < 0.0 {
            c.cov("negative");
        }
        if x.abs() < 1e-3 {
            c.cov("tiny");
        } else if x.abs() <= 10.0 {
            c.cov("angle up to 10");
        } else {
            c.cov("angle up to 10000");
        }
        let tol = 1.2e-4 + 1.2e-7 * xd.abs();
        let y = x.fixed_point_sin();
        c.near(y as f64, xd.sin(), tol, "sin", || format!("fixed-point sine of {x:?}"))?;
        let z = x.fixed_point_cos();
        c.near(z as f64, xd.cos(), tol, "cos", || format!("fixed-point cosine of {x:?}"))?;
        let t = x.lookup_sin();
        c.near(t as f64, xd.sin(), 0.12 + 1.2e-7 * xd.abs(), "table", || format!("table sine of {x:?}"))?;
        for v in [y, z, t] {
            c.ok(v.abs() <= 1.0001, "range", || format!("approximation at {x:?} is {v:?}"))?;
        }
        // periodic
        let k = c.rng.range(-200, 200) as f64;
        let x2 = (xd + k * std::f64::consts::TAU) as f32;
        if x2.abs() <= 10000.0 {
            let t2 = x2.lookup_sin();
            let slack = 3e-4 + 4e-7 * (xd.abs() + x2.abs() as f64);
            c.near(t2 as f64, t as f64, slack, "periodic", || format!("table sine at {x:?} and {k} turns away at {x2:?}"))?;
            c.cov("periodic");
        }
        // monotone between the extremes
        let d = c.rng.logf(1e-5, 1.0) as f64;
        let q = (xd - std::f64::consts::FRAC_PI_2).rem_euclid(std::f64::consts::TAU); // 0 at the maximum
        let x3 = (xd + d) as f32;
        let q3 = q + (x3 as f64 - xd);
        if x3.abs() <= 10000.0 {
            let t3 = x3.lookup_sin();
            let slack = 3e-4 + 4e-7 * xd.abs();
            if q3 <= std::f64::consts::PI {
                c.cov("table falling");
                c.ok((t3 as f64) <= t as f64 + slack, "monotone", || format!("table sine rises from {t:?} at {x:?} to {t3:?} at {x3:?}"))?;
            } else if q >= std::f64::consts::PI && q3 <= std::f64::consts::TAU {
                c.cov("table rising");
                c.ok(t3 as f64 >= t as f64 - slack, "monotone", || format!("table sine falls from {t:?} at {x:?} to {t3:?} at {x3:?}"))?;
            }
        }
        if x != 0.0 {
            c.nontrivial();
        }
        c.sample(|| format!("at {x:?}: sin {y:?} cos {z:?} table {t:?}"));
    }
    Ok(())
}

fn c30(c: &mut Ctx) -> R {
    let n = if c.small() { 20 } else { 200 };
    for _ in 0..n {
        let s = c.rng.pick(&[1.0f32, -1.0]);
        // tangent
        let x = match c.rng.below(6) {
            0 => c.rng.pick(&[0.0f32, 0.5, 1.0, 0.25, std::f32::consts::FRAC_PI_4]),
            1 => c.rng.logf(1e-38, 1e-3),
            2 => c.rng.f(1.0, 1.5707),
            3 => c.rng.f(0.5, 1.0),
            _ => c.rng.f(0.0, 0.5),
        };
        let y = (s * x).fast_tan() as f64 * s as f64;
        let want = (x as f64).tan();
        c.sigf(s * x);
        if x <= 0.5 {
            c.cov("tan up to 0.5");
            c.near(y, want, 5e-7 * want + 1e-44, "tan", || format!("tangent of {s}*{x:?}"))?;
        } else if x <= 1.0 {
            c.cov("tan up to 1");
            c.near(y, want, 1e-3 * want, "tan", || format!("tangent of {s}*{x:?}"))?;
        }
        let short = (2.0 * x as f64 / std::f64::consts::PI).powi(16);
        c.near(y, want, (short + 8e-7) * want + 1e-44, "tan", || format!("tangent of {s}*{x:?}"))?;
        if x > 1.0 {
            c.cov("tan up to pi/2");
        }
        let o = (-s * x).fast_tan() as f64 * -s as f64;
        c.near(o, y, y * 2e-7 + 1e-44, "odd", || format!("tangent of {x:?} and its negative"))?;
        let x2 = (x + c.rng.logf(1e-7, 0.3)).min(1.5707);
        let y2 = (s * x2).fast_tan() as f64 * s as f64;
        c.ok(x2 <= x || y2 >= y * (1.0 - 3e-7), "rising", || format!("tangent of {x:?} is {y:?}, of {x2:?} only {y2:?}"))?;
        c.cov("tan rising");
        // hyperbolic
        let h = match c.rng.below(6) {
            0 => c.rng.pick(&[0.0f32, 1.0, 85.0, 0.5, 10.0, 40.0]),
            1 => c.rng.logf(1e-38, 1e-3),
            2 => c.rng.f(10.0, 85.0),
            _ => c.rng.f(0.0, 10.0),
        };
        c.sigf(h);
        if h == 0.0 {
            c.cov("zero");
        }
        if h > 0.0 && h < 1e-3 {
            c.cov("tiny");
        }
        if h > 80.0 {
            c.cov("sinh 80");
        }
        let (sp, sn) = (AdditionalF32Ext::sinh(&h) as f64, AdditionalF32Ext::sinh(&-h) as f64);
        let (cp, cn) = (AdditionalF32Ext::cosh(&h) as f64, AdditionalF32Ext::cosh(&-h) as f64);
        let (sw, cw) = ((h as f64).sinh(), (h as f64).cosh());
        c.near(sp, sw, 0.0025 * sw + 3e-7, "sinh", || format!("sinh of {h:?}"))?;
        c.near(cp, cw, 0.0025 * cw + 3e-7, "cosh", || format!("cosh of {h:?}"))?;
        c.near(sn, -sp, sp.abs() * 1e-6 + 1e-7, "odd", || format!("sinh of {h:?} and its negative"))?;
        c.near(cn, cp, cp * 1e-6, "even", || format!("cosh of {h:?} and its negative"))?;
        c.cov("sinh");
        c.cov("cosh");
        let t = match c.rng.below(6) {
            0 => c.rng.f(0.0, 0.25),
            1 => c.rng.f(0.0, 1.0),
            2 => c.rng.f(1.0, 10.0),
            3 => c.rng.logf(1.0, 1e18),
            4 => c.rng.logf(1e-38, 1e-3),
            _ => c.rng.pick(&[0.0f32, 0.25, 1.0, std::f32::consts::SQRT_2]),
        };
        c.sigf(t);
        let y = AdditionalF32Ext::tanh(&t) as f64;
        let want = (t as f64).tanh();
        if t <= 0.25 {
            c.cov("tanh up to 0.25");
            c.near(y, want, 2.6e-3, "tanh", || format!("tanh of {t:?}"))?;
        } else if t <= 1.0 {
            c.cov("tanh up to 1");
            c.near(y, want, 0.1, "tanh", || format!("tanh of {t:?}"))?;
        } else {
            c.cov("tanh large");
        }
        c.ok(y.abs() <= 0.75, "tanh-bound", || format!("tanh of {t:?} is {y:?}"))?;
        let o = AdditionalF32Ext::tanh(&-t) as f64;
        c.near(o, -y, 1e-6, "odd", || format!("tanh of {t:?} and its negative"))?;
        c.nontrivial();
        c.sample(|| format!("tan {x:?}, sinh/cosh {h:?}, tanh {t:?}"));
    }
    Ok(())
}

fn c31(c: &mut Ctx) -> R {
    for v in [0.0f32, -0.0f32] {
        let y = v.sinc();
        c.ok(y == 1.0, "sinc0", || format!("sinc({v:?}) is {y:?}"))?;
        c.cov(if v.is_sign_negative() { "sinc minus 0" } else { "sinc 0" });
    }
    let n = if c.small() { 8 } else { 40 };
    for _ in 0..n {
        let s = c.rng.pick(&[1.0f32, -1.0]);
        let x = s * match c.rng.below(6) {
            0 => {
                c.cov("sinc tiny");
                c.rng.logf(1e-37, 1e-3)
            }
            1 => {
                c.cov("sinc large");
                c.rng.f(100.0, 1000.0)
            }
            2 => {
                c.cov("sinc near multiple of pi");
                let x = (c.rng.range(1, 318) as f64 * std::f64::consts::PI) as f32;
                if c.rng.chance(1, 2) {
                    next_up(x)
                } else {
                    x
                }
            }
            3 => c.rng.pick(&[1.0f32, 2.0, 0.5, 1000.0]),
            _ => c.rng.f(0.0, 100.0),
        };
        c.sigf(x);
        let y = x.sinc() as f64 * x as f64;
        let want = (x as f64).sin();
        c.near(y, want, 1.2e-4 + 1.2e-7 * x.abs() as f64, "sinc", || format!("x*sinc(x) at {x:?}"))?;
        c.nontrivial();
    }
    let x = match c.rng.below(10) {
        0 => {
            c.cov("si tiny");
            c.rng.logf(1e-30, 1e-3)
        }
        1 => c.rng.pick(&[0.0f32, 1.0, std::f32::consts::PI, 100.0, 10.0]),
        2 => c.rng.f(50.0, 100.0),
        3 => c.rng.f(0.0, 1.0),
        4 => {
            if c.small() {
                1.0
            } else {
                99.9
            }
        }
        _ => c.rng.f(0.0, 100.0),
    };
    let x = if c.small() { x.min(4.0) } else { x };
    c.sigf(x);
    if x == 0.0 {
        c.cov("si 0");
    }
    if x < 1.0 {
        c.cov("si below 1");
    }
    if x > 50.0 {
        c.cov("si above 50");
    }
    let y = x.si() as f64;
    let want = si64(x as f64);
    c.near(y, want, 0.003, "si", || format!("sine integral of {x:?}"))?;
    c.max("worst si error", (y - want).abs());
    c.cov("si");
    let m = (-x).si() as f64;
    c.near(m, -want, 0.003, "si", || format!("sine integral of {:?}", -x))?;
    c.near(m, -y, 6e-3, "odd", || format!("sine integral of {x:?} and its negative"))?;
    c.cov("si odd");
    c.nontrivial();
    c.sample(|| format!("si({x:?}) = {y:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Band-limited rectangle

/// Si on a fine grid up to 160
static SI: LazyLock<Vec<f64>> = LazyLock::new(|| {
    let g = |t: f64| if t == 0.0 { 1.0 } else { t.sin() / t };
    let n = (160.0 * SI_PER) as usize + 2;
    let h = 1.0 / SI_PER;
    let mut v = vec![0.0; n];
    for i in 1..n {
        let a = (i - 1) as f64 * h;
        v[i] = v[i - 1] + h / 6.0 * (g(a) + 4.0 * g(a + h / 2.0) + g(a + h));
    }
    v
});
const SI_PER: f64 = if cfg!(miri) { 16.0 } else { 256.0 };
fn si_grid(x: f64) -> f64 {
    let p = x * SI_PER;
    let i = p as usize;
    let f = p - i as f64;
    SI[i] * (1.0 - f) + SI[i + 1] * f
}
/// position within the first quarter for any x in (0, 1), and the sign
fn bl_quarter(x: f64) -> (f64, f64) {
    if x <= 0.25 {
        (x, 1.0)
    } else if x <= 0.5 {
        (0.5 - x, 1.0)
    } else if x <= 0.75 {
        (x - 0.5, -1.0)
    } else {
        (1.0 - x, -1.0)
    }
}

fn c32(c: &mut Ctx) -> R {
    let one = |c: &mut Ctx, x: f32| -> R {
        let y = x.lookup_bl_rect();
        c.obs.evals += 2;
        if !(y.is_finite() && y.abs() <= 0.983) {
            return Err(viol("bound", format!("rectangle at {x:?} (bits {:#x}) is {y:?}", x.to_bits())));
        }
        if x.is_nan() {
            c.cov("nan");
            return Ok(());
        }
        let xd = x as f64;
        if xd <= 0.0 || xd >= 1.0 {
            c.cov(if x.is_infinite() {
                "infinite"
            } else if xd == 0.0 {
                "at 0"
            } else if xd == 1.0 {
                "at 1"
            } else if xd < 0.0 {
                "negative"
            } else {
                "above 1"
            });
            if y != 0.0 {
                return Err(viol("outside", format!("rectangle at {x:?} is {y:?}, expected 0")));
            }
            return Ok(());
        }
        let (q, s) = bl_quarter(xd);
        c.cov(if xd == 0.25 {
            "at 0.25"
        } else if xd == 0.5 {
            "at 0.5"
        } else if xd == 0.75 {
            "at 0.75"
        } else if xd < 0.25 {
            "first quarter"
        } else if xd < 0.5 {
            "second quarter"
        } else if xd < 0.75 {
            "third quarter"
        } else {
            "fourth quarter"
        });
        let want = s * 5.0 / (3.0 * std::f64::consts::PI) * si_grid(202.96 * std::f64::consts::PI * q);
        let tol = if cfg!(miri) { 3e-3 } else { 2e-4 };
        if !((y as f64 - want).abs() <= tol) {
            return Err(viol("shape", format!("rectangle at {x:?} (bits {:#x}) is {y:?}, expected {want:?} +-{tol}", x.to_bits())));
        }
        Ok(())
    };
    sweep(c, 32, |c, b| one(c, f32::from_bits(b)))?;
    // the interesting span is a small part of the pattern space: look at it evenly as well
    let n = if c.small() { 30 } else { 64 };
    for _ in 0..n {
        let x = match c.rng.below(4) {
            0 => {
                c.cov("neighbours of a corner");
                let mut x = c.rng.pick(&[0.25f32, 0.5, 0.75, 1.0, 0.0]);
                for _ in 0..c.rng.below(5) {
                    x = if c.rng.chance(1, 2) { next_up(x) } else { next_down(x) };
                }
                x
            }
            1 => (c.rng.below(4 * 5074 + 1) as f64 / (4.0 * 5074.0)) as f32,
            _ => c.rng.f(0.0, 1.0),
        };
        c.sigf(x);
        one(c, x)?;
        let xd = x as f64;
        if xd > 0.0 && xd < 0.25 {
            let y = x.lookup_bl_rect() as f64;
            for (z, want) in [(0.5 - xd, y), (xd + 0.5, -y), (1.0 - xd, -y)] {
                let v = (z as f32).lookup_bl_rect() as f64;
                c.near(v, want, 5e-5, "symmetry", || format!("rectangle at {x:?} is {y:?} and at {z:?}"))?;
            }
        }
    }
    c.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Units, stereo, clipping

fn c33(c: &mut Ctx) -> R {
    let sr = match c.rng.below(4) {
        0 => c.rng.pick(&[8000.0f32, 44100.0, 48000.0, 96000.0, 192000.0, 1.0, 1000.0]),
        1 => {
            c.cov("extreme rate");
            c.rng.logf(1e-12, 1e15)
        }
        _ => {
            c.cov("odd rate");
            c.rng.f(100.0, 200000.0)
        }
    };
    for _ in 0..6 {
        let x = match c.rng.below(8) {
            0 => {
                c.cov("zero");
                0.0
            }
            1 => {
                c.cov("negative");
                -c.rng.logf(1e-6, 1e9)
            }
            2 | 3 => {
                c.cov("integer samples");
                c.rng.below(1 << 24) as f32
            }
            4 => {
                c.cov("large");
                c.rng.logf(1e9, 1e20)
            }
            _ => {
                c.cov("fraction");
                c.rng.logf(1e-9, 1e4)
            }
        };
        c.sigf(x);
        c.sigf(sr);
        let (xd, sd) = (x as f64, sr as f64);
        let tol = |v: f64| v.abs() * 4.0 * EPS;
        let d = || format!("{x:?} at {sr:?}");
        let (a, b, e, f) = (x.samples_to_seconds(sr), x.samples_to_millis(sr), x.seconds_to_samples(sr), x.millis_to_samples(sr));
        c.near(a as f64, xd / sd, tol(xd / sd), "seconds", || format!("samples to seconds of {}", d()))?;
        c.near(b as f64, xd / sd * 1000.0, tol(xd / sd * 1000.0), "millis", || format!("samples to milliseconds of {}", d()))?;
        c.near(e as f64, xd * sd, tol(xd * sd), "samples", || format!("seconds to samples of {}", d()))?;
        c.near(f as f64, xd * sd / 1000.0, tol(xd * sd / 1000.0), "samples", || format!("milliseconds to samples of {}", d()))?;
        c.near(a.seconds_to_samples(sr) as f64, xd, tol(xd), "round-trip", || format!("samples to seconds and back of {}", d()))?;
        c.near(b.millis_to_samples(sr) as f64, xd, tol(xd), "round-trip", || format!("samples to milliseconds and back of {}", d()))?;
        c.near(e.samples_to_seconds(sr) as f64, xd, tol(xd), "round-trip", || format!("seconds to samples and back of {}", d()))?;
        c.near(f.samples_to_millis(sr) as f64, xd, tol(xd), "round-trip", || format!("milliseconds to samples and back of {}", d()))?;
        c.near(b as f64, a as f64 * 1000.0, tol(a as f64 * 1000.0), "consistent", || format!("milliseconds against seconds of {}", d()))?;
        if x != 0.0 {
            c.nontrivial();
        }
        c.sample(d);
    }
    Ok(())
}

const GAIN: f64 = 1.5e-7;
/// how far the root of a linear gain moves when that gain is rounded differently
fn wobble(g: f64) -> f64 {
    if g == 0.0 || g == 1.0 {
        return 0.0;
    }
    1.07 * ((g + GAIN).sqrt() - (g - GAIN).max(0.0).sqrt())
}

fn c34(c: &mut Ctx) -> R {
    let mut prev: Option<(f32, f64, f64)> = None;
    for _ in 0..6 {
        let a = match c.rng.below(8) {
            0 => -1.0f32,
            1 => 1.0,
            2 => c.rng.pick(&[0.0f32, -0.0]),
            3 => c.rng.pick(&[next_down(1.0), -next_down(1.0), 0.5, -0.5, f32::from_bits(1), -f32::from_bits(1)]),
            _ => c.rng.f(-1.0, 1.0),
        };
        let (l, r) = match c.rng.below(6) {
            0 => {
                c.cov("left silent");
                (0.0, c.rng.sample())
            }
            1 => {
                c.cov("right silent");
                (c.rng.sample(), 0.0)
            }
            _ => (c.rng.sample(), c.rng.sample()),
        };
        c.sigf(a);
        c.sigf(l);
        c.sigf(r);
        c.cov(if a == -1.0 {
            "hard left"
        } else if a == 1.0 {
            "hard right"
        } else if a == 0.0 {
            "centre"
        } else if a.abs() > 0.9999999 {
            "just inside"
        } else {
            "inner"
        });
        let (ad, ld, rd) = (a as f64, l as f64, r as f64);
        let (gl, gr) = ((1.0 - ad) * 0.5, (1.0 + ad) * 0.5);
        let m = mono_pan_unchecked(a, l);
        c.near(m.0 as f64, ld * gl, 4.0 * EPS * ld.abs(), "mono", || format!("left of {l:?} at {a:?}"))?;
        c.near(m.1 as f64, ld * gr, 4.0 * EPS * ld.abs(), "mono", || format!("right of {l:?} at {a:?}"))?;
        c.near(m.0 as f64 + m.1 as f64, ld, 4.0 * EPS * ld.abs(), "sum", || format!("sum of {l:?} panned to {a:?}"))?;
        match mono_pan(a, l) {
            Ok(v) => c.ok(v == m, "checked", || format!("mono {l:?} at {a:?}: checked {v:?}, unchecked {m:?}"))?,
            Err(e) => return Err(viol("checked", format!("mono pan at {a:?} was refused: {e:?}"))),
        }
        let s = stereo_pan_unchecked(a, (l, r));
        for (out, x, g, side) in [(s.0 as f64, ld, gl, "left"), (s.1 as f64, rd, gr, "right")] {
            let want = x * g.sqrt();
            let ok = if g == 0.0 {
                out.abs() <= 1e-15 * x.abs()
            } else if g == 1.0 {
                (out - x).abs() <= 2.0 * EPS * x.abs()
            } else {
                // the linear gain under the root may be rounded in any equivalent form
                let (lo, hi) = ((g - GAIN).max(0.0).sqrt() * x.abs(), (g + GAIN).sqrt() * x.abs());
                out * x.signum() >= lo * (1.0 - 1e-6) && out * x.signum() <= hi * 1.062
            };
            c.ok(ok, "stereo", || format!("{side} {x:?} panned to {a:?} is {out:?}, expected {want:?} +6.2%"))?;
        }
        match stereo_pan(a, (l, r)) {
            Ok(v) => c.ok(v == s, "checked", || format!("stereo ({l:?}, {r:?}) at {a:?}: checked {v:?}, unchecked {s:?}"))?,
            Err(e) => return Err(viol("checked", format!("stereo pan at {a:?} was refused: {e:?}"))),
        }
        let mir = stereo_pan_unchecked(-a, (r, l));
        let (tl, tr) = (wobble(gl) * ld.abs(), wobble(gr) * rd.abs());
        c.near(mir.1 as f64, s.0 as f64, 1e-6 * s.0.abs() as f64 + tl, "mirror", || format!("left of ({l:?}, {r:?}) at {a:?} and its mirror image"))?;
        c.near(mir.0 as f64, s.1 as f64, 1e-6 * s.1.abs() as f64 + tr, "mirror", || format!("right of ({l:?}, {r:?}) at {a:?} and its mirror image"))?;
        c.cov("mirror");
        let x = crossfade_correlated_unchecked(a, (l, r));
        c.near(x as f64, ld * gl + rd * gr, 4.0 * EPS * (ld.abs() + rd.abs()), "crossfade", || format!("({l:?}, {r:?}) at {a:?}"))?;
        let unit = stereo_pan_unchecked(a, (1.0, 1.0));
        let (ul, ur) = (unit.0 as f64, unit.1 as f64);
        if let Some((pa, pl, pr)) = prev {
            c.cov("monotone pair");
            let (up, d) = if a >= pa { ((pl, pr), (ul, ur)) } else { ((ul, ur), (pl, pr)) };
            c.ok(d.0 <= up.0 + 1e-6 && d.1 >= up.1 - 1e-6, "monotone", || format!("gains {up:?} then {d:?} between positions {pa:?} and {a:?}"))?;
        }
        prev = Some((a, ul, ur));
        // refusals
        let b = match c.rng.below(4) {
            0 => next_up(1.0),
            1 => {
                c.cov("infinite position");
                f32::INFINITY
            }
            2 => c.rng.logf(1.001, 1e38),
            _ => c.rng.pick(&[2.0f32, 5.0, f32::MAX, 1.5]),
        };
        for (p, want) in [(b, PanningError::TooRight), (-b, PanningError::TooLeft)] {
            let (m, s) = (mono_pan(p, l), stereo_pan(p, (l, r)));
            c.cov(if p > 0.0 { "too right" } else { "too left" });
            let same = m.as_ref().err() == Some(&want) && s.as_ref().err() == Some(&want);
            c.ok(same, "refusal", || format!("position {p:?}: mono {m:?}, stereo {s:?}, expected {want:?}"))?;
        }
        if l != 0.0 && a.abs() < 1.0 {
            c.nontrivial();
        }
        c.sample(|| format!("position {a:?}, samples ({l:?}, {r:?})"));
    }
    Ok(())
}

fn c35(c: &mut Ctx) -> R {
    let (mut above, mut below, mut inside) = (0, 0, 0);
    let r = sweep(c, 4, |c, b| {
        let x = f32::from_bits(b);
        if x.is_nan() {
            return Ok(());
        }
        let y = digital_clip(x);
        let want = if x > 1.0 {
            above += 1;
            1.0
        } else if x < -1.0 {
            below += 1;
            -1.0
        } else {
            inside += 1;
            x
        };
        c.obs.evals += 1;
        if y != want {
            return Err(viol("digital", format!("digital clipper: {x:?} (bits {b:#x}) became {y:?}, expected {want:?}")));
        }
        if x == 1.0 {
            c.cov("exactly 1");
        }
        if x == -1.0 {
            c.cov("exactly -1");
        }
        if x.is_infinite() {
            c.cov("infinite");
        }
        Ok(())
    });
    c.covn("above 1", above);
    c.covn("below -1", below);
    c.covn("inside", inside);
    r?;
    // the parametric clippers: amount 1 to 100, odd orders and fractional ones
    let amount = match c.rng.below(3) {
        0 => c.rng.pick(&[1.0f32, 2.0, 3.0, 5.0, 0.5]),
        _ => c.rng.logf(0.1, 20.0),
    };
    let n = if c.small() { 6 } else { 64 };
    let base = ((c.case % BLOCKS) as u32) << 16;
    for i in 0..n {
        let x = match i % 4 {
            0 => f32::from_bits(base | (c.rng.u32() & 0xffff)),
            1 => c.rng.pick(&[1.0f32, -1.0, 0.0, -0.0, next_up(1.0), -next_up(1.0), next_down(1.0), f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN]),
            2 => c.rng.f(-3.0, 3.0),
            _ => c.rng.logf(1.0, 1e30) * c.rng.pick(&[1.0f32, -1.0]),
        };
        if x.is_nan() {
            continue;
        }
        // inside full scale three of four clippers are unimplemented (a listed finding): a few
        // probes per case are enough to see whether that still holds
        if x.abs() <= 1.0 && i >= 8 {
            continue;
        }
        type Clip = (&'static str, &'static str, fn(f32, f32) -> f32);
        const CLIPS: [Clip; 3] = [("tanh_clip", "tanh clip", |x, _| tanh_clip(x)), ("poly_clip", "poly clip", poly_clip), ("sigmoid_clip", "sigmoid clip", sigmoid_clip)];
        for (name, label, f) in CLIPS {
            c.cov(label);
            // beyond full scale the shape parameter must not matter, whatever it is
            let amount = if x.abs() > 1.0 && c.rng.chance(1, 2) { c.rng.pick(&[0.0f32, -0.0, -1.0, -0.5, -2.0, -100.0, 1e30, -1e30, 1e-30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 4.0, 7.0]) } else { amount };
            let r = c.may_panic(|| f(x, amount));
            c.obs.evals += 1;
            let Some(y) = r else {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                if x.abs() <= 1.0 && m.contains("not yet implemented") {
                    c.cov("soft inside");
                    c.record(&format!("finding:{name}:todo-panic"), format!("{name}({x:?}) panics: not yet implemented"));
                    continue;
                }
                return Err(viol("clip-panic", format!("{name}({x:?}, {amount:?}) panicked: {m}")));
            };
            let ok = if x > 1.0 {
                y == 1.0
            } else if x < -1.0 {
                y == -1.0
            } else {
                c.cov("soft inside");
                y >= -1.0 && y <= 1.0
            };
            if !ok {
                return Err(viol("clip", format!("{name}({x:?}, {amount:?}) is {y:?}")));
            }
        }
    }
    Ok(())
}
