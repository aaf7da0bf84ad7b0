//! Deterministic test pictures.
use crate::case::*;
use crate::rng::Rng;

fn quant(c: &Case, v01: f64) -> f64 {
    // v01 in 0..=1 for integers
    match c.fmt {
        Fmt::F32 => v01 as f32 as f64,
        Fmt::F16 => crate::exec::f16_to_f64(crate::exec::f32_to_f16(v01 as f32)),
        _ => (v01 * c.max()).round().clamp(0.0, c.max()),
    }
}

/// kinds of content for every format; floating formats know two more
pub const CONTENTS: u32 = 8;
pub const ALPHAS: u32 = 7;

/// Dense samples of the source picture of a case.
pub fn picture(c: &Case) -> Vec<f64> {
    let n = c.planes();
    let mut r = Rng::new(c.seed);
    let (w, h) = (c.sw, c.sh);
    let mut v = vec![0.0; w * h * n];
    let base: Vec<f64> = (0..n).map(|_| r.f()).collect();
    let (ax, ay) = (r.f() * 0.6 + 0.01, r.f() * 0.6 + 0.01);
    let impulse = (r.below(w.max(1)), r.below(h.max(1)));
    // alpha that is constant but for one pixel, by a step or by much
    let lone = if c.alpha == 6 && c.seed >> 31 & 3 == 0 && w * h > 1 {
        let mut q = Rng::new(c.seed ^ 0x10e);
        let at = match q.below(5) {
            0 => w * h - 1,
            1 => w * h - 1 - q.below(w.min(w * h - 1).max(1)),
            2 => q.below(w),
            _ => q.below(w * h),
        };
        let a = if q.chance(0.5) { 1.0 } else { base[3 % n].max(0.02) };
        let step = 1.0 / if c.fmt.float() { 64.0 } else { c.max() };
        Some((at, a, if q.chance(0.5) { a - step } else { q.f() }.max(0.0)))
    } else {
        None
    };
    // (floating formats only) far from one: a magnitude of the whole picture, or one for every sample
    let mags = if c.fmt == Fmt::F16 { (-20, 12) } else { (-120, 118) };
    let mag = |q: &mut Rng| 2f64.powi(mags.0 + q.below((mags.1 - mags.0 + 1) as usize) as i32);
    let whole = mag(&mut Rng::new(c.seed ^ 0x3a9));
    let faint = 2f64.powi(-(Rng::new(c.seed ^ 0xfa1).below(if c.fmt == Fmt::F16 { 9 } else { 40 }) as i32));
    for y in 0..h {
        for x in 0..w {
            for k in 0..n {
                let t: f64 = match c.content {
                    8 => (r.f() * 2.0 - 1.0) * whole,
                    9 => (r.f() * 2.0 - 1.0) * mag(&mut r),
                    // full-range noise
                    0 => r.f(),
                    // black and white noise
                    1 => (r.next() & 1) as f64,
                    // smooth waves with noise
                    2 => (0.5 + 0.45 * ((x as f64) * ax + (y as f64) * ay + k as f64).sin() + 0.05 * (r.f() - 0.5)).clamp(0.0, 1.0),
                    // one bright pixel
                    3 => {
                        if (x, y) == impulse {
                            1.0
                        } else {
                            0.0
                        }
                    }
                    // a uniform colour
                    4 => base[k],
                    // checkerboard
                    5 => ((x + y + k) & 1) as f64,
                    // steps
                    6 => {
                        if x * 2 + y < w + h / 2 {
                            base[k]
                        } else {
                            1.0 - base[k]
                        }
                    }
                    // sparse noise on white
                    _ => {
                        if r.chance(0.1) {
                            r.f()
                        } else {
                            1.0
                        }
                    }
                };
                let t = if c.fmt.float() && c.content == 0 && !c.premul { t * 4.0 - 1.5 } else { t };
                v[(y * w + x) * n + k] = quant(c, t);
            }
            if n == 4 && !c.fmt.packed() {
                let a = match c.alpha {
                    1 => Some(1.0),
                    2 => Some(r.f()),
                    3 => Some((r.next() & 1) as f64),
                    4 => Some(base[3].max(0.02)),
                    // faint alpha
                    5 => Some(r.f() * 0.06),
                    // opaque with holes
                    6 if lone.is_some() => lone.map(|(at, a, b)| if y * w + x == at { b } else { a }),
                    6 => Some(if r.chance(0.12) { r.f() } else { 1.0 }),
                    // (by direction only) clear above, half below: differences that add up to a power of two
                    7 => Some(if y == 0 { 0.0 } else { 0.5 }),
                    _ => None,
                };
                if let Some(a) = a {
                    let a = if c.content == 8 { a * faint } else { a };
                    v[(y * w + x) * n + 3] = quant(c, a);
                }
            }
            if c.fmt.packed() {
                v[(y * w + x) * n + 3] = (r.next() & 3) as f64;
            }
        }
    }
    v
}
