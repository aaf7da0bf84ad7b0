//! Independent double-precision definitions of the resampling filters, by filter number.
use std::f64::consts::{PI, SQRT_2};

pub const NAMES: [&str; 49] = [
    "Bilinear", "Nearest", "Cubic", "MitchellNetravalli", "CatmullRom", "Hermite", "BSpline", "Hann", "Bicubic",
    "Hamming", "Hanning", "Blackman", "Welch", "Quadric", "Gaussian", "Sphinx", "Bartlett", "Robidoux",
    "RobidouxSharp", "Spline16", "Spline36", "Spline64", "Kaiser", "BartlettHann", "Box", "Bohman", "Lanczos2",
    "Lanczos3", "Lanczos4", "Lanczos2Jinc", "Lanczos3Jinc", "Lanczos4Jinc", "EwaHanning", "EwaRobidoux",
    "EwaBlackman", "EwaQuadric", "EwaRobidouxSharp", "EwaLanczos3Jinc", "Ginseng", "EwaGinseng", "EwaLanczosSharp",
    "EwaLanczos4Sharpest", "EwaLanczosSoft", "HaasnSoft", "Lagrange2", "Lagrange3", "Lanczos6", "Lanczos6Jinc",
    "Area",
];
pub const NFILT: u32 = 49;
pub const NEAREST: u32 = 1;
pub const AREA: u32 = 48;

pub fn id(name: &str) -> u32 {
    NAMES.iter().position(|n| *n == name).unwrap() as u32
}

/// Bessel function of the first kind of order one, by its integral representation (exact to
/// double precision for the arguments that occur: the integrand is smooth and periodic).
pub fn j1(x: f64) -> f64 {
    let n = 64;
    let mut s = 0.0;
    for k in 0..n {
        let t = PI * (k as f64 + 0.5) / n as f64;
        s += (t - x * t.sin()).cos();
    }
    s / n as f64
}
pub fn jinc(x: f64) -> f64 {
    if x.abs() < 1e-9 {
        0.5
    } else {
        j1(x) / x
    }
}
fn sinc(x: f64) -> f64 {
    if x.abs() < 1e-12 {
        1.0
    } else {
        x.sin() / x
    }
}
/// Mitchell-Netravali family.
fn bc(x: f64, b: f64, c: f64) -> f64 {
    if x < 1.0 {
        ((12.0 - 9.0 * b - 6.0 * c) * x.powi(3) + (-18.0 + 12.0 * b + 6.0 * c) * x * x + (6.0 - 2.0 * b)) / 6.0
    } else if x < 2.0 {
        ((-b - 6.0 * c) * x.powi(3) + (6.0 * b + 30.0 * c) * x * x + (-12.0 * b - 48.0 * c) * x + (8.0 * b + 24.0 * c)) / 6.0
    } else {
        0.0
    }
}
fn lanczos(x: f64, a: f64) -> f64 {
    if x < a {
        sinc(PI * x) * sinc(PI * x / a)
    } else {
        0.0
    }
}
fn lanczos_jinc(x: f64, a: f64) -> f64 {
    if x < a {
        jinc(PI * x) * jinc(PI * x / a)
    } else {
        0.0
    }
}
fn lagrange(x: f64, s: usize) -> f64 {
    if x > s as f64 {
        return 0.0;
    }
    let n = (s as f64 + x).floor() as i64;
    let mut v = 1.0;
    for i in 0..2 * s as i64 {
        if i != n {
            v *= ((n - i) as f64 - x) / (n - i) as f64;
        }
    }
    v
}
fn poly(x: f64, c: &[(f64, f64, f64)]) -> f64 {
    // piecewise cubics with unit knots: piece k is ((a t + b) t + c) t (+ 1 for the first)
    let k = (x.floor() as usize).min(c.len() - 1);
    let t = x - k as f64;
    let (a, b, d) = c[k];
    ((a * t + b) * t + d) * t + if k == 0 { 1.0 } else { 0.0 }
}
fn i0(x: f64) -> f64 {
    let mut s = 1.0;
    let mut t = 1.0;
    for k in 1..60 {
        t *= (x / 2.0 / k as f64).powi(2);
        s += t;
    }
    s
}
fn hanning(x: f64) -> f64 {
    if x >= 1.0 {
        0.0
    } else {
        0.5 + 0.5 * (PI * x).cos()
    }
}
fn robidoux(x: f64) -> f64 {
    bc(x, 12.0 / (19.0 + 9.0 * SQRT_2), 13.0 / (58.0 + 216.0 * SQRT_2))
}
fn robidoux_sharp(x: f64) -> f64 {
    bc(x, 6.0 / (13.0 + 7.0 * SQRT_2), 7.0 / (2.0 + 12.0 * SQRT_2))
}
fn quadric(x: f64) -> f64 {
    if x < 0.5 {
        0.75 - x * x
    } else if x < 1.5 {
        0.5 * (x - 1.5).powi(2)
    } else {
        0.0
    }
}
fn blackman(x: f64) -> f64 {
    if x < 2.0 {
        let t = x / 2.0;
        sinc(x) * (0.42 - 0.49656062 * (2.0 * PI * t).cos() + 0.07684867 * (4.0 * PI * t).cos())
    } else {
        0.0
    }
}

/// value of the kernel at distance `x` >= 0
fn kernel(f: u32, x: f64) -> f64 {
    match NAMES[f as usize] {
        "Bilinear" => (1.0 - x).max(0.0),
        "Cubic" | "BSpline" => bc(x, 1.0, 0.0),
        "MitchellNetravalli" => bc(x, 1.0 / 3.0, 1.0 / 3.0),
        "CatmullRom" | "Bicubic" => bc(x, 0.0, 0.5),
        "Hermite" => {
            // cubic Hermite blend
            if x < 1.0 {
                (2.0 * x - 3.0) * x * x + 1.0
            } else {
                0.0
            }
        }
        "Hann" => {
            if x > 2.0 {
                0.0
            } else {
                (PI * x / 4.0).cos().powi(2) / 4.0
            }
        }
        "Hamming" => {
            if x >= 1.0 {
                0.0
            } else {
                0.54 + 0.46 * (PI * x).cos()
            }
        }
        "Hanning" => hanning(x),
        "Blackman" | "EwaBlackman" => blackman(x),
        "Welch" => (1.0 - x * x).max(0.0),
        "Quadric" | "EwaQuadric" => quadric(x),
        "Gaussian" => {
            let den = (2.0 * 0.35f64 * 0.35).powi(2);
            (-x / den).exp()
        }
        "Sphinx" => {
            let t = PI * x;
            if t < 1e-3 {
                1.0 - t * t / 10.0
            } else {
                3.0 * (t.sin() - t * t.cos()) / t.powi(3)
            }
        }
        "Bartlett" => (1.0 - x).max(0.0),
        "BartlettHann" => {
            if x > 1.0 {
                0.0
            } else {
                0.62 - 0.4832 * (x / 2.0) + 0.38 * (PI * x).cos()
            }
        }
        "Robidoux" | "EwaRobidoux" => robidoux(x),
        "RobidouxSharp" | "EwaRobidouxSharp" => robidoux_sharp(x),
        "Spline16" => poly(x, &[(1.0, -9.0 / 5.0, -1.0 / 5.0), (-1.0 / 3.0, 4.0 / 5.0, -7.0 / 15.0)]),
        "Spline36" => poly(
            x,
            &[
                (13.0 / 11.0, -453.0 / 209.0, -3.0 / 209.0),
                (-6.0 / 11.0, 270.0 / 209.0, -156.0 / 209.0),
                (1.0 / 11.0, -45.0 / 209.0, 26.0 / 209.0),
            ],
        ),
        "Spline64" => poly(
            x,
            &[
                (49.0 / 41.0, -6387.0 / 2911.0, -3.0 / 2911.0),
                (-24.0 / 41.0, 4032.0 / 2911.0, -2328.0 / 2911.0),
                (6.0 / 41.0, -1008.0 / 2911.0, 582.0 / 2911.0),
                (-1.0 / 41.0, 168.0 / 2911.0, -97.0 / 2911.0),
            ],
        ),
        "Kaiser" => {
            if x > 1.0 {
                0.0
            } else {
                i0(6.33 * (1.0 - x * x).sqrt()) / i0(6.33)
            }
        }
        "Box" | "Area" => 1.0,
        "Bohman" => {
            if x > 1.0 {
                0.0
            } else {
                (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI
            }
        }
        "Lanczos2" => lanczos(x, 2.0),
        "Lanczos3" => lanczos(x, 3.0),
        "Lanczos4" => lanczos(x, 4.0),
        "Lanczos6" => lanczos(x, 6.0),
        "Lanczos2Jinc" => lanczos_jinc(x, 2.0),
        "Lanczos3Jinc" | "EwaLanczos3Jinc" => lanczos_jinc(x, 3.0),
        "Lanczos4Jinc" => lanczos_jinc(x, 4.0),
        "Lanczos6Jinc" => lanczos_jinc(x, 6.0),
        "Lagrange2" => lagrange(x, 2),
        "Lagrange3" => lagrange(x, 3),
        "EwaHanning" | "EwaLanczosSharp" | "EwaLanczos4Sharpest" | "EwaLanczosSoft" | "HaasnSoft" => jinc(x),
        "Ginseng" | "EwaGinseng" => sinc(x),
        n => panic!("no kernel for {n}"),
    }
}

/// (size, blur, jinc shaped or hanning) of a separate window, if the filter has one
fn window(f: u32) -> Option<(f64, f64, bool)> {
    const R3: f64 = 3.2383154841662362;
    const R4: f64 = 4.2410628637960699;
    Some(match NAMES[f as usize] {
        "EwaHanning" => (2.0, 0.0, false),
        "Ginseng" => (3.0, 1.0, true),
        "EwaGinseng" => (R3, 1.0, true),
        "EwaLanczosSharp" => (R3, 0.9812505837223707, true),
        "EwaLanczos4Sharpest" => (R4, 0.8845120932605005, true),
        "EwaLanczosSoft" => (R3, 1.0164667662867047, true),
        "HaasnSoft" => (3.0, 1.11, false),
        _ => return None,
    })
}

pub fn is_ewa(f: u32) -> bool {
    NAMES[f as usize].starts_with("Ewa")
}
/// taps across at unit scale
pub fn taps(f: u32) -> f64 {
    match NAMES[f as usize] {
        "EwaHanning" => 1.0,
        "Lanczos3" | "Hann" | "Lanczos3Jinc" | "EwaLanczos3Jinc" | "Ginseng" | "EwaGinseng" | "EwaLanczosSharp"
        | "EwaLanczosSoft" | "HaasnSoft" | "Lagrange3" => 3.0,
        "Lanczos4" | "Lanczos4Jinc" | "EwaLanczos4Sharpest" | "Spline36" => 4.0,
        "Lanczos6" | "Lanczos6Jinc" | "Spline64" => 6.0,
        _ => 2.0,
    }
}
/// grows with the reduction ratio
pub fn resizable(f: u32) -> bool {
    !matches!(NAMES[f as usize], "Spline16" | "Spline36" | "Spline64")
}
/// kernels that never go negative inside the window they are used in
pub fn averaging(f: u32) -> bool {
    matches!(
        NAMES[f as usize],
        "Bilinear" | "Cubic" | "Hermite" | "BSpline" | "Hann" | "Hamming" | "Hanning" | "Welch" | "Quadric" | "EwaQuadric"
            | "Gaussian" | "Kaiser" | "Box" | "Bohman" | "Area" | "Bartlett"
    )
}

fn weight(f: u32, dx: f64, fscale: f64) -> f64 {
    match window(f) {
        None => kernel(f, dx * fscale),
        Some((size, blur, jn)) => {
            let x = if blur > 0.0 { dx / blur } else { dx };
            let xs = x * fscale;
            let w = if x < size {
                if jn {
                    jinc(xs * size)
                } else {
                    hanning(xs * size)
                }
            } else {
                0.0
            };
            w * kernel(f, xs)
        }
    }
}

/// Weights of destination position `i`, evaluated with the centre displaced by `dc` and the
/// distances scaled by `1 + ds` (to cover the rounding of single-precision coordinates), and with
/// the window rounded up or down where its size is a tie. Returns the first tap and the weights,
/// normalised, and the sum before normalisation relative to the sum of magnitudes.
pub fn row(f: u32, n_in: usize, n_out: usize, i: usize, dc: f64, ds: f64, tie: i32) -> (usize, Vec<f64>, f64) {
    let scale = n_in as f64 / n_out as f64;
    if f == AREA && n_in < n_out {
        return area_up(n_in, n_out, i, dc);
    }
    if f == AREA {
        return area_down(n_in, n_out, i);
    }
    let cut = if resizable(f) { scale.max(1.0) } else { 1.0 };
    let (c, start, end) = window_of(f, n_in, n_out, i, dc, tie);
    let mut w: Vec<f64> = (start..end).map(|k| weight(f, (k as f64 + 0.5 - c).abs() * (1.0 + ds), 1.0 / cut)).collect();
    if is_ewa(f) {
        for j in 1..w.len() {
            w[j] = 0.7 * w[j] + 0.3 * w[j - 1];
        }
    }
    let s: f64 = w.iter().sum();
    let m: f64 = w.iter().map(|x| x.abs()).sum();
    let cond = if m > 0.0 { s.abs() / m } else { 0.0 };
    if cond > 1e-12 {
        for x in w.iter_mut() {
            *x /= s;
        }
    }
    (start, w, cond)
}

/// Centre and taps of destination position `i`.
pub fn window_of(f: u32, n_in: usize, n_out: usize, i: usize, dc: f64, tie: i32) -> (f64, usize, usize) {
    let scale = n_in as f64 / n_out as f64;
    let cut = if resizable(f) { scale.max(1.0) } else { 1.0 };
    let exact = taps(f) * cut;
    let mut base = (exact + 0.5).floor();
    let fr = exact + 0.5 - base;
    if tie == 1 && fr > 1.0 - 1e-9 {
        base += 1.0;
    }
    if tie == -1 && fr < 1e-9 {
        base -= 1.0;
    }
    let radius = base / 2.0;
    let c = ((i as f64 + 0.5) * scale).min(n_in as f64) + dc;
    let start = (c - radius + 0.5).floor().max(0.0) as usize;
    let end = (c + radius + 0.5).floor().min(n_in as f64) as usize;
    let start = start.min(n_in - 1);
    let end = end.max(start + 1);
    (c, start, end)
}

fn area_up(n_in: usize, n_out: usize, i: usize, dc: f64) -> (usize, Vec<f64>, f64) {
    // bilinear between the two cells a destination cell may straddle, weighted by overlap
    let scale = n_in as f64 / n_out as f64;
    let lo = i as f64 * scale + dc;
    let hi = (i + 1) as f64 * scale + dc;
    let sx = lo.floor().max(0.0).min(n_in as f64 - 1.0);
    let over = ((hi - (sx + 1.0)) / scale).max(0.0);
    let over = over - over.floor();
    let s = sx as usize;
    if s + 1 < n_in {
        (s, vec![1.0 - over, over], 1.0)
    } else {
        (s, vec![1.0], 1.0)
    }
}

fn area_down(n_in: usize, n_out: usize, i: usize) -> (usize, Vec<f64>, f64) {
    // exact coverage of the source cells by the destination cell
    let (a, b) = (i as u128 * n_in as u128, (i as u128 + 1) * n_in as u128);
    let n = n_out as u128;
    let s = (a / n) as usize;
    let e = b.div_ceil(n) as usize;
    let w = (s..e.min(n_in))
        .map(|k| {
            let lo = (k as u128 * n).max(a);
            let hi = ((k as u128 + 1) * n).min(b);
            (hi - lo) as f64 / n_in as f64
        })
        .collect();
    (s, w, 1.0)
}
