//! The reference resampler: plain double-precision weighted averages with honest error bars.
use crate::filt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Possible weight rows of one destination position (more than one where the placement of the
/// window, or a jump of the kernel, is a tie within single-precision rounding).
#[derive(Clone)]
pub struct Pos {
    pub cands: Vec<(usize, Vec<f64>)>,
    /// bound on the error of one weight from single-precision coordinates
    pub werr: f64,
    /// ratio of the sum of weights to the sum of their magnitudes before normalisation
    pub cond: f64,
}
pub struct Axis {
    pub n_in: usize,
    pub pos: Vec<Pos>,
}

thread_local! {
    static AXES: RefCell<HashMap<(u32, usize, usize), Rc<Axis>>> = RefCell::new(HashMap::new());
}

pub fn axis(f: u32, n_in: usize, n_out: usize) -> Rc<Axis> {
    AXES.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 4000 {
            m.clear();
        }
        m.entry((f, n_in, n_out)).or_insert_with(|| Rc::new(build(f, n_in, n_out))).clone()
    })
}

fn dense(n_in: usize, c: &(usize, Vec<f64>)) -> impl Fn(usize) -> f64 + '_ {
    let _ = n_in;
    move |k| if k >= c.0 && k < c.0 + c.1.len() { c.1[k - c.0] } else { 0.0 }
}

fn build(f: u32, n_in: usize, n_out: usize) -> Axis {
    let mut pos = Vec::with_capacity(n_out);
    for i in 0..n_out {
        if n_in == n_out {
            pos.push(Pos { cands: vec![(i, vec![1.0])], werr: 0.0, cond: 1.0 });
            continue;
        }
        if f == filt::NEAREST {
            // on the exact border of two cells either one is nearest
            let (num, den) = ((2 * i + 1) * n_in, 2 * n_out);
            let k = (num / den).min(n_in - 1);
            let mut cands = vec![(k, vec![1.0])];
            if num % den == 0 && k > 0 {
                cands.push((k - 1, vec![1.0]));
            }
            pos.push(Pos { cands, werr: 0.0, cond: 1.0 });
            continue;
        }
        let (s, w, cond) = filt::row(f, n_in, n_out, i, 0.0, 0.0, 0);
        let scale = n_in as f64 / n_out as f64;
        let c = (i as f64 + 0.5) * scale;
        let eps = (c + 4.0) * 1e-12;
        let mut cands = vec![(s, w)];
        let mut werr = 1e-6f64;
        let mut worst = cond;
        let edges = |dc, tie| {
            let (_, a, b) = filt::window_of(f, n_in, n_out, i, dc, tie);
            (a, b)
        };
        let usual = edges(0.0, 0);
        for tie in [0, 1, -1] {
            if tie != 0 && edges(0.0, tie) == usual {
                continue;
            }
            for dc in [0.0, eps, -eps] {
                // (a displacement that small only matters where it moves the window)
                if dc != 0.0 && f != filt::AREA && edges(dc, tie) == edges(0.0, tie) {
                    continue;
                }
                for ds in [0.0, 4e-7, -4e-7] {
                    let (s2, w2, c2) = filt::row(f, n_in, n_out, i, dc, ds, tie);
                    worst = worst.min(c2);
                    let n = (s2, w2);
                    let mut same = false;
                    for old in cands.iter_mut() {
                        let lo = old.0.min(n.0);
                        let hi = (old.0 + old.1.len()).max(n.0 + n.1.len());
                        let d = {
                            let (a, b) = (dense(n_in, old), dense(n_in, &n));
                            (lo..hi).map(|k| (a(k) - b(k)).abs()).fold(0.0, f64::max)
                        };
                        if d < 2e-3 * (0.05 + scale.max(1.0)).recip() {
                            werr = werr.max(d);
                            same = true;
                            // a tap at the rim may carry the weight error alone
                            let w: Vec<f64> = (lo..hi).map(dense(n_in, old)).collect();
                            *old = (lo, w);
                            break;
                        }
                    }
                    if !same {
                        cands.push(n);
                    }
                }
            }
        }
        // (the displacements tried are samples of those possible)
        pos.push(Pos { cands, werr: werr * 1.25, cond: worst });
    }
    Axis { n_in, pos }
}

/// One sample interval.
#[derive(Clone, Copy)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
    /// allowed error around the interval
    pub tol: f64,
    /// the middle for statistics, if the interval is a point
    pub mid: f64,
}

pub struct Model {
    /// samples are clamped to this after each pass
    pub clamp: Option<f64>,
    /// rounding error of one pass in units of a sample (0.5 for integers plus slack)
    pub round: f64,
    /// relative rounding error (floating formats)
    pub rel: f64,
    /// error of one quantised weight (0 when weights are floating)
    pub qw: f64,
    /// absolute error of one product, in units of a sample (fixed-point paths that round each)
    pub tap: f64,
    /// weights cannot exceed one (fixed point): the excess moves to other taps
    pub sat: bool,
}

/// Resamples one row/column of intervals. `src(k)` gives the interval of source sample k.
fn pass(ax: &Axis, i: usize, m: &Model, src: &dyn Fn(usize) -> Iv) -> Iv {
    let p = &ax.pos[i];
    // the fast paths are for reductions below eight
    let tap = if (ax.n_in as f64) < 8.0 * ax.pos.len() as f64 { m.tap } else { 0.0 };
    let (mut lo, mut hi, mut tol, mut mid) = (f64::MAX, f64::MIN, 0f64, 0.0);
    for (ci, (s, w)) in p.cands.iter().enumerate() {
        let (mut l, mut h, mut t, mut mm) = (0.0, 0.0, 0.0, 0.0);
        let mut mag = 0.0f64;
        let mut excess = 0.0;
        let (mut smin, mut smax) = (f64::MAX, f64::MIN);
        for (j, &wk) in w.iter().enumerate() {
            let v = src(s + j);
            if wk >= 0.0 {
                l += wk * v.lo;
                h += wk * v.hi;
            } else {
                l += wk * v.hi;
                h += wk * v.lo;
            }
            mm += wk * v.mid;
            t += wk.abs() * v.tol;
            let a = v.lo.abs().max(v.hi.abs());
            mag += wk.abs() * a;
            // the error of a weight also multiplies the error of the sample
            t += (p.werr + m.qw) * (a + v.tol) + tap;
            // (the largest fixed-point weight is a step below one)
            excess += (wk.abs() - 1.0 + 1.0 / 16384.0).max(0.0);
            smin = smin.min(v.lo - v.tol);
            smax = smax.max(v.hi + v.tol);
        }
        // rounding of a single-precision sum grows with its length
        t += m.rel * mag + m.round;
        if m.rel > 0.0 {
            t += 1.5e-8 * w.len() as f64 * mag;
        }
        if m.sat && excess > 0.0 {
            t += excess * (smax - smin);
        }
        if let Some(c) = m.clamp {
            // a clamped interval keeps its tolerance
            l = l.clamp(0.0, c);
            h = h.clamp(0.0, c);
            mm = f64::clamp(mm, 0.0, c);
        }
        lo = lo.min(l);
        hi = hi.max(h);
        tol = f64::max(tol, t);
        if ci == 0 {
            mid = mm;
        }
    }
    Iv { lo, hi, tol, mid }
}

/// Full two-pass resampling (vertical, then horizontal) of `ch` interleaved channels.
#[allow(clippy::too_many_arguments)]
pub fn resample(f: u32, src: &[Iv], ch: usize, sw: usize, sh: usize, dw: usize, dh: usize, m: &Model) -> Vec<Iv> {
    let mid: Vec<Iv> = if sh == dh {
        src.to_vec()
    } else {
        let ax = axis(f, sh, dh);
        let mut v = Vec::with_capacity(sw * dh * ch);
        for y in 0..dh {
            for x in 0..sw * ch {
                v.push(pass(&ax, y, m, &|k| src[k * sw * ch + x]));
            }
        }
        v
    };
    if sw == dw {
        return mid;
    }
    let ax = axis(f, sw, dw);
    let mut v = Vec::with_capacity(dw * dh * ch);
    for y in 0..dh {
        for x in 0..dw {
            for c in 0..ch {
                v.push(pass(&ax, x, m, &|k| mid[(y * sw + k) * ch + c]));
            }
        }
    }
    v
}

pub fn points(img: &[f64]) -> Vec<Iv> {
    img.iter().map(|&v| Iv { lo: v, hi: v, tol: 0.0, mid: v }).collect()
}

/// smallest cond over the axes used
pub fn conditioning(f: u32, sw: usize, sh: usize, dw: usize, dh: usize) -> f64 {
    let mut c = 1f64;
    if sw != dw {
        c = axis(f, sw, dw).pos.iter().map(|p| p.cond).fold(c, f64::min);
    }
    if sh != dh {
        c = axis(f, sh, dh).pos.iter().map(|p| p.cond).fold(c, f64::min);
    }
    c
}
