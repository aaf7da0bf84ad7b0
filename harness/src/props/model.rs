//! Monitors that compare with the independent reference model.
use super::gen;
use super::Prop;
use crate::case::*;
use crate::drive::{Obs, Tier};
use crate::exec::*;
use crate::filt;
use crate::pict::picture;
use crate::refm::{self, Iv, Model};
use crate::rng::Rng;

/// Error bars of a format's arithmetic.
pub fn arith(c: &Case) -> Model {
    match c.fmt {
        // Q15 weights; the fast paths keep products to 1/64 of a step
        Fmt::U8 => Model { clamp: Some(255.0), round: 0.502, rel: 0.0, qw: 1.0 / 32768.0, tap: if c.speed { 1.0 / 126.0 } else { 0.0 }, sat: true },
        Fmt::U16 if c.depth <= 12 => Model { clamp: Some(c.max()), round: 0.502, rel: 0.0, qw: 1.0 / 32768.0, tap: 0.0, sat: true },
        Fmt::U16 => Model { clamp: Some(c.max()), round: 0.51, rel: 2e-6, qw: 0.0, tap: 0.0, sat: false },
        Fmt::Ar30 | Fmt::Ra30 => Model { clamp: Some(1023.0), round: 0.502, rel: 0.0, qw: 1.0 / 32768.0, tap: 0.0, sat: true },
        Fmt::F32 => Model { clamp: None, round: 1e-40, rel: 3e-6, qw: 0.0, tap: 0.0, sat: false },
        Fmt::F16 => Model { clamp: None, round: 2f64.powi(-24), rel: 2f64.powi(-11) * 1.02 + 2e-6, qw: 0.0, tap: 0.0, sat: false },
    }
}

/// Requests whose weights are too ill conditioned in single precision to have a meaningful value.
pub fn ill(c: &Case) -> bool {
    refm::conditioning(c.filter, c.sw, c.sh, c.dw, c.dh) < 0.05
}

pub fn where_(c: &Case, i: usize) -> String {
    let n = c.planes();
    let p = i / n;
    format!("x={} y={} channel {}", p % c.dw, p / c.dw, i % n)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Compares a result with intervals.
pub fn judge(c: &Case, got: &[f64], want: &[Iv], o: &mut Obs) -> Result<(), String> {
    let mut worst = 0f64;
    let mut bias = 0.0;
    let mut nb = 0usize;
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let d = (w.lo - g).max(g - w.hi);
        if !(d <= w.tol) {
            return Err(format!(
                "{}: sample {} is {:.9} where the weighted average is {:.6}..{:.6} (tolerance {:.9})",
                c.class(), where_(c, i), g, w.lo, w.hi, w.tol
            ));
        }
        worst = worst.max(d / w.tol.max(1e-40));
        if let Fmt::U8 | Fmt::U16 = c.fmt {
            // exact halves go up, so they say nothing
            let half = (w.mid - w.mid.floor() - 0.5).abs() < 0.02;
            if w.hi - w.lo < 0.02 && w.tol < 1.3 && w.mid > 3.0 && w.mid < c.max() - 3.0 && !half {
                bias += g - w.mid;
                nb += 1;
            }
        }
    }
    o.evals += got.len() as u64;
    o.max("worst error as a part of the tolerance", worst);
    if nb >= 20 {
        // (the samples of one picture may all have the same fraction, so a picture counts once)
        let k = format!("{} {}", if c.fmt == Fmt::U8 { "U8" } else if c.depth <= 12 { "U16<=12" } else { "U16>12" }, if c.speed { "speed" } else { "quality" });
        o.add(&format!("sum of mean rounding errors {k}"), bias / nb as f64);
        o.add(&format!("pictures with rounding judged {k}"), 1.0);
        let k = format!("{:?}x{} {} with {}", c.fmt, c.ch, if c.speed { "speed" } else { "quality" }, crate::cpu::name(c.cpu));
        o.add(&format!("#b {k}"), bias / nb as f64);
        o.add(&format!("#n {k}"), 1.0);
    }
    // (boxes and simple ratios meet exact halves all the time, which go up)
    let odd = |a: usize, b: usize| a == b || b / gcd(a, b) >= 5;
    if nb >= 400 && c.content == 0 && odd(c.sw, c.dw) && odd(c.sh, c.dh) && c.dw * c.dh <= 2 * c.sw * c.sh && c.filter != 24 && c.filter != 48 {
        let m = bias / nb as f64;
        o.max("largest mean rounding error of a noise picture", m.abs());
        if m.abs() > 0.3 {
            return Err(format!("{}: rounding is biased: mean error {m:.4} over {nb} samples", c.class()));
        }
    }
    Ok(())
}

fn check_plain(c: &Case, o: &mut Obs) -> Result<(), String> {
    if ill(c) {
        o.add("ill-conditioned requests passed over", 1.0);
        return Ok(());
    }
    let img = picture(c);
    let r = exec(c, &img);
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    let m = arith(c);
    let want = refm::resample(c.filter, &refm::points(&img), c.ch, c.sw, c.sh, c.dw, c.dh, &m);
    judge(c, &r.values(c), &want, o)?;
    o.sig_case(c);
    Ok(())
}

fn gen_of(r: &mut Rng, i: usize, t: Tier, f: &[(Fmt, usize)]) -> Case {
    let mut c = gen::base(r, i, t, f);
    gen::not_nearest(r, &mut c);
    gen::not_same(r, &mut c);
    if r.chance(0.35) {
        c.content = 0;
    }
    if c.fmt.float() && r.chance(0.25) {
        c.content = 8 + r.below(2) as u32;
    }
    c
}
fn unbiased(o: &mut Obs) -> Result<(), String> {
    for k in ["U8 speed", "U8 quality", "U16<=12 speed", "U16<=12 quality", "U16>12 speed", "U16>12 quality"] {
        let n = *o.sums.get(&format!("pictures with rounding judged {k}")).unwrap_or(&0.0);
        let s = *o.sums.get(&format!("sum of mean rounding errors {k}")).unwrap_or(&0.0);
        if n >= 400.0 {
            o.max(&format!("mean rounding error {k}"), (s / n).abs());
            if (s / n).abs() > 0.035 {
                return Err(format!("rounding is biased for {k}: mean error {:.4} over {n} pictures", s / n));
            }
        }
    }
    // by what a kernel is chosen by
    let keys: Vec<String> = o.sums.keys().filter(|k| k.starts_with("#n ")).map(|k| k[3..].to_string()).collect();
    let mut bad = None;
    for k in keys {
        let n = o.sums.remove(&format!("#n {k}")).unwrap_or(0.0);
        let s = o.sums.remove(&format!("#b {k}")).unwrap_or(0.0);
        if n >= 60.0 {
            o.add("kinds of pixel, strategy and processor with enough pictures for a mean rounding error", 1.0);
            o.max("largest mean rounding error of a kind of pixel on a processor", (s / n).abs());
            if (s / n).abs() > 0.08 {
                bad = Some(format!("rounding is biased for {k}: mean error {:.4} over {n} pictures", s / n));
            }
        }
    }
    bad.map_or(Ok(()), Err)
}

const RULE: &str = "One case is one request (format, channels, filter, sizes, strides, strategy, threads, processor model) on a generated picture, its result compared sample by sample with an independent double-precision resampler. Non-trivial: the sizes differ and the filter is not nearest, and the weights are well conditioned; distinct: differing in any of those settings.";

pub const C06: Prop = Prop { id: "C06", gen: |r, i, t| gen_of(r, i, t, gen::U8S), check: check_plain, quick: 9000, thorough: 120000, serial: false, per_model: false, rule: RULE, init: None, fini: Some(unbiased) };
pub const C07: Prop = Prop { id: "C07", gen: |r, i, t| gen_of(r, i, t, gen::U16S), check: check_plain, quick: 9000, thorough: 120000, serial: false, per_model: false, rule: RULE, init: None, fini: Some(unbiased) };
pub const C08: Prop = Prop { id: "C08", gen: |r, i, t| gen_of(r, i, t, gen::FLOATS), check: check_plain, quick: 9000, thorough: 120000, serial: false, per_model: false, rule: RULE, init: None, fini: None };

// ------------------------------------------------------------------ alpha

fn gen17(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen_of(r, i, t, gen::RGBA);
    c.premul = true;
    if c.alpha == 0 {
        c.alpha = 2;
    }
    // very wide rows: what is added up over a row may leave 32 bits
    if i % 700 == 1 || i % 700 == 305 {
        let k = i / 700;
        c.sw = if i % 700 == 1 { 131072 } else { r.range(32769, 70000) };
        c.alpha = if i % 700 == 1 { 7 } else { 3 };
        c.depth = if c.fmt == Fmt::U16 { 16 } else { c.depth };
        c.sh = 2;
        c.dh = 1;
        c.dw = if k % 2 == 0 { c.sw } else { r.range(1, 40) };
        c.filter = r.below(4) as u32;
        gen::not_nearest(r, &mut c);
    }
    c
}

fn check17(c: &Case, o: &mut Obs) -> Result<(), String> {
    if ill(c) {
        return Ok(());
    }
    let img = picture(c);
    let r = exec(c, &img);
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    let got = r.values(c);
    // the alpha channel is what plain resampling gives
    let mut plain = c.clone();
    plain.premul = false;
    let q = exec(&plain, &img);
    if let Some(f) = q.fault() {
        return Err(format!("{}: {f}", plain.class()));
    }
    let pl = q.values(&plain);
    for i in (3..got.len()).step_by(4) {
        if got[i] != pl[i] {
            return Err(format!("{}: alpha at {} is {} with premultiplication and {} without", c.class(), where_(c, i), got[i], pl[i]));
        }
    }
    let mx = c.max();
    let m = arith(c);
    let float = c.fmt.float();
    let src: Vec<Iv> = img
        .chunks_exact(4)
        .flat_map(|p| {
            let a = p[3];
            let mut v = [Iv { lo: 0.0, hi: 0.0, tol: 0.0, mid: 0.0 }; 4];
            for k in 0..4 {
                let x = if k < 3 { p[k] * a / mx } else { a };
                let tol = if k == 3 {
                    0.0
                } else if float {
                    x.abs() * (if c.fmt == Fmt::F16 { 2f64.powi(-10) } else { 3e-7 }) + (if c.fmt == Fmt::F16 { 6e-8 } else { 1e-30 })
                } else {
                    0.51
                };
                v[k] = Iv { lo: x, hi: x, tol, mid: x };
            }
            v
        })
        .collect();
    let want = refm::resample(c.filter, &src, 4, c.sw, c.sh, c.dw, c.dh, &m);
    let amin = img.iter().skip(3).step_by(4).cloned().fold(f64::MAX, f64::min);
    let amax = img.iter().skip(3).step_by(4).cloned().fold(f64::MIN, f64::max);
    // with one alpha everywhere weighting changes nothing but where the colours saturate
    let straight = if amin == amax { Some(refm::resample(c.filter, &refm::points(&img), 4, c.sw, c.sh, c.dw, c.dh, &m)) } else { None };
    let mut coloured = 0;
    for i in 0..got.len() {
        if i % 4 == 3 {
            continue;
        }
        let a = got[i / 4 * 4 + 3];
        let w = &want[i];
        if let Some(s) = &straight {
            let s = &s[i];
            if got[i] >= s.lo - s.tol && got[i] <= s.hi + s.tol {
                coloured += (a != 0.0) as usize;
                continue;
            }
        }
        if a == 0.0 {
            // nothing to divide by: black, or what premultiplied resampling left
            if got[i] != 0.0 && !(got[i] >= w.lo - w.tol && got[i] <= w.hi + w.tol) {
                return Err(format!(
                    "{}: {} has colour {} under zero alpha where premultiplied resampling leaves {:.5}..{:.5}",
                    c.class(), where_(c, i), got[i], w.lo - w.tol, w.hi + w.tol
                ));
            }
            continue;
        }
        let (lo, hi) = if float {
            // the two quotients; the sign of alpha may be negative under negative lobes
            let (x, y) = ((w.lo - w.tol) / a, (w.hi + w.tol) / a);
            let (lo, hi) = (x.min(y), x.max(y));
            let e = lo.abs().max(hi.abs()) * (if c.fmt == Fmt::F16 { 2f64.powi(-10) } else { 4e-7 }) + (if c.fmt == Fmt::F16 { 6e-8 } else { 1e-30 });
            // beyond the largest half float comes infinity
            let inf = |v: f64| if c.fmt == Fmt::F16 && v.abs() > 65504.0 { v * f64::INFINITY } else { v };
            (inf(lo - e).min(lo - e), inf(hi + e).max(hi + e))
        } else {
            let (x, y) = ((w.lo - w.tol).max(0.0) * mx / a, (w.hi + w.tol).max(0.0) * mx / a);
            (x.min(mx) - UNPRE, y.min(mx) + UNPRE)
        };
        if !(got[i] >= lo && got[i] <= hi) {
            return Err(format!(
                "{}: colour at {} is {} (alpha {}) where premultiply, resample, unpremultiply gives {:.5}..{:.5}",
                c.class(), where_(c, i), got[i], a, lo, hi
            ));
        }
        coloured += 1;
    }
    o.evals += coloured as u64;
    o.add("colour samples compared under non-zero alpha", coloured as f64);
    if coloured > 0 {
        o.sig_case(c);
    }
    Ok(())
}
/// rounding of the division
const UNPRE: f64 = 0.75;

pub const C17: Prop = Prop {
    id: "C17", gen: gen17, check: check17, quick: 9000, thorough: 100000, serial: false, per_model: false,
    rule: "One case is one RGBA request with premultiplication over one of seven alpha patterns; its colours are compared with premultiply-resample-unpremultiply intervals, its alpha bit for bit with the unpremultiplied request. Non-trivial: at least one sample under non-zero alpha was compared.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ packed

fn gen20(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::PACKED);
    gen::not_same(r, &mut c);
    gen::not_nearest(r, &mut c);
    c
}
fn check20(c: &Case, o: &mut Obs) -> Result<(), String> {
    let img = picture(c);
    let r = exec(c, &img);
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    if !r.pad_ok {
        return Err(format!("{}: row padding of the destination was written", c.class()));
    }
    let got = r.values(c);
    for i in (3..got.len()).step_by(4) {
        if got[i] != 3.0 {
            return Err(format!("{}: alpha field at {} is {}", c.class(), where_(c, i), got[i]));
        }
    }
    let mut other = c.clone();
    other.net = !c.net;
    let q = exec(&other, &img);
    if let Some(f) = q.fault() {
        return Err(format!("{}: {f}", other.class()));
    }
    let ov = q.values(&other);
    if let Some(i) = (0..got.len()).find(|&i| got[i] != ov[i]) {
        return Err(format!("{}: {} decodes to {} in one byte order and {} in the other", c.class(), where_(c, i), got[i], ov[i]));
    }
    // component order and strides do not matter either
    let mut sw = c.clone();
    sw.fmt = if c.fmt == Fmt::Ar30 { Fmt::Ra30 } else { Fmt::Ar30 };
    sw.spad = 0;
    sw.dpad = 0;
    let q = exec(&sw, &img);
    if let Some(f) = q.fault() {
        return Err(format!("{}: {f}", sw.class()));
    }
    let ov = q.values(&sw);
    if let Some(i) = (0..got.len()).find(|&i| (got[i] - ov[i]).abs() > 1.0) {
        return Err(format!("{}: {} is {} and in the other component order {}", c.class(), where_(c, i), got[i], ov[i]));
    }
    if ill(c) {
        return Ok(());
    }
    let m = arith(c);
    let want = refm::resample(c.filter, &refm::points(&img), 4, c.sw, c.sh, c.dw, c.dh, &m);
    let (mut gg, mut ww) = (vec![], vec![]);
    for i in 0..got.len() {
        // only the colour fields are resampled
        if i % 4 == 3 {
            gg.push(0.0);
            ww.push(Iv { lo: 0.0, hi: 0.0, tol: 0.0, mid: 0.0 });
        } else {
            gg.push(got[i]);
            ww.push(want[i]);
        }
    }
    judge(c, &gg, &ww, o)?;
    o.sig_case(c);
    Ok(())
}
pub const C20: Prop = Prop {
    id: "C20", gen: gen20, check: check20, quick: 6000, thorough: 80000, serial: false, per_model: false,
    rule: "One case is one AR30 or RA30 request; each decoded colour field is compared with the reference resampling of that field, the alpha field with 3, and the result with the other byte order, the other component order and dense rows. Non-trivial: sizes differ, filter not nearest.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ colour spaces

fn gen21(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::U8S);
    gen::color(r, &mut c);
    c.kind = COLOR_KINDS[i % COLOR_KINDS.len()];
    gen::avoid_finding(&mut c);
    c.sw = c.sw.min(90);
    c.dw = c.dw.min(90);
    gen::not_same(r, &mut c);
    c.premul = c.ch == 4 && r.chance(0.4);
    if c.ch == 4 && c.alpha == 0 {
        c.alpha = 1;
    }
    c
}

/// What the scaler should give: convert, resample with the plain scaler, convert back, all dense.
fn composed(c: &Case, img: &[f64]) -> Vec<f64> {
    use colorutils_rs::*;
    use pic_scale::{ImageStore, ImageStoreMut, Scaling, ScalingF32};
    let n = c.ch;
    let src: Vec<u8> = img.iter().map(|&v| v as u8).collect();
    let (sw, sh, dw, dh) = (c.sw as u32, c.sh as u32, c.dw as u32, c.dh as u32);
    let (ss, ds) = (sw * n as u32, dw * n as u32);
    let (fs, fd) = (ss * 4, ds * 4);
    let t = transfer(c.tf);
    let s = TransferFunction::Srgb;
    let mut out = vec![0u8; c.dw * c.dh * n];
    let mut sc = scaler(c);
    sc.set_workload_strategy(pic_scale::WorkloadStrategy::PreferSpeed);
    if c.kind == Kind::LinearApprox {
        let mut lin = vec![0u8; src.len()];
        let mut mid = vec![0u8; out.len()];
        if n == 3 {
            rgb_to_linear_u8(&src, ss, &mut lin, ss, sw, sh, t);
            let a = ImageStore::<u8, 3>::from_slice(&lin, c.sw, c.sh).unwrap();
            let mut b = ImageStoreMut::<u8, 3>::from_slice(&mut mid, c.dw, c.dh).unwrap();
            sc.resize_rgb(&a, &mut b).unwrap();
            linear_u8_to_rgb(&mid, ds, &mut out, ds, dw, dh, t);
        } else {
            rgba_to_linear_u8(&src, ss, &mut lin, ss, sw, sh, t);
            let a = ImageStore::<u8, 4>::from_slice(&lin, c.sw, c.sh).unwrap();
            let mut b = ImageStoreMut::<u8, 4>::from_slice(&mut mid, c.dw, c.dh).unwrap();
            sc.resize_rgba(&a, &mut b, c.premul).unwrap();
            linear_u8_to_rgba(&mid, ds, &mut out, ds, dw, dh, t);
        }
        return out.iter().map(|&v| v as f64).collect();
    }
    let mut lin = vec![0f32; src.len()];
    let mut mid = vec![0f32; out.len()];
    let (mi, mo) = (&SRGB_TO_XYZ_D65, &XYZ_TO_SRGB_D65);
    match (c.kind, n) {
        (Kind::Lab, 3) => rgb_to_lab(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Lab, _) => rgba_to_lab_with_alpha(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Luv, 3) => rgb_to_luv(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Luv, _) => rgba_to_luv_with_alpha(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Lch, 3) => rgb_to_lch(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Lch, _) => rgba_to_lch_with_alpha(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Xyz, 3) => srgb_to_xyz(&src, ss, &mut lin, fs, sw, sh),
        (Kind::Xyz, _) => rgba_to_xyz_with_alpha(&src, ss, &mut lin, fs, sw, sh, mi, s),
        (Kind::Oklab, 3) => rgb_to_oklab(&src, ss, &mut lin, fs, sw, sh, t),
        (Kind::Oklab, _) => rgba_to_oklab(&src, ss, &mut lin, fs, sw, sh, t),
        (Kind::Jzazbz, 3) => rgb_to_jzazbz(&src, ss, &mut lin, fs, sw, sh, luminance(c), t),
        (Kind::Jzazbz, _) => rgba_to_jzazbz(&src, ss, &mut lin, fs, sw, sh, luminance(c), t),
        (Kind::Sigmoid, 3) => rgb_to_sigmoidal(&src, ss, &mut lin, fs, sw, sh),
        (Kind::Sigmoid, _) => rgba_to_sigmoidal(&src, ss, &mut lin, fs, sw, sh),
        (_, 3) => rgb_to_linear(&src, ss, &mut lin, fs, sw, sh, t),
        _ => rgba_to_linear(&src, ss, &mut lin, fs, sw, sh, t),
    }
    if n == 3 {
        let a = ImageStore::<f32, 3>::from_slice(&lin, c.sw, c.sh).unwrap();
        let mut b = ImageStoreMut::<f32, 3>::from_slice(&mut mid, c.dw, c.dh).unwrap();
        sc.resize_rgb_f32(&a, &mut b).unwrap();
    } else {
        let a = ImageStore::<f32, 4>::from_slice(&lin, c.sw, c.sh).unwrap();
        let mut b = ImageStoreMut::<f32, 4>::from_slice(&mut mid, c.dw, c.dh).unwrap();
        sc.resize_rgba_f32(&a, &mut b, c.premul).unwrap();
    }
    match (c.kind, n) {
        (Kind::Lab, 3) => lab_to_srgb(&mid, fd, &mut out, ds, dw, dh),
        (Kind::Lab, _) => lab_with_alpha_to_rgba(&mid, fd, &mut out, ds, dw, dh, mo, s),
        (Kind::Luv, 3) => luv_to_rgb(&mid, fd, &mut out, ds, dw, dh, mo, s),
        (Kind::Luv, _) => luv_with_alpha_to_rgba(&mid, fd, &mut out, ds, dw, dh, mo, s),
        (Kind::Lch, 3) => lch_to_rgb(&mid, fd, &mut out, ds, dw, dh, mo, s),
        (Kind::Lch, _) => lch_with_alpha_to_rgba(&mid, fd, &mut out, ds, dw, dh, mo, s),
        (Kind::Xyz, 3) => xyz_to_srgb(&mid, fd, &mut out, ds, dw, dh),
        (Kind::Xyz, _) => xyz_with_alpha_to_rgba(&mid, fd, &mut out, ds, dw, dh, mo, s),
        (Kind::Oklab, 3) => oklab_to_rgb(&mid, fd, &mut out, ds, dw, dh, t),
        (Kind::Oklab, _) => oklab_to_rgba(&mid, fd, &mut out, ds, dw, dh, t),
        (Kind::Jzazbz, _) => {
            // (the library's conversion of rows leaves out 4 of 8 pixels)
            for (m, o) in mid.chunks(n).zip(out.chunks_mut(n)) {
                let rgb = Jzazbz::new_with_luminance(m[0], m[1], m[2], luminance(c)).to_linear_rgb();
                for (o, l) in o.iter_mut().zip([rgb.r, rgb.g, rgb.b]) {
                    *o = (t.gamma(l.clamp(0.0, 1.0)) * 255.0).round() as u8;
                }
                if n == 4 {
                    o[3] = (m[3] * 255.0).round() as u8;
                }
            }
        }
        (Kind::Sigmoid, 3) => sigmoidal_to_rgb(&mid, fd, &mut out, ds, dw, dh),
        (Kind::Sigmoid, _) => sigmoidal_to_rgba(&mid, fd, &mut out, ds, dw, dh),
        (_, 3) => linear_to_rgb(&mid, fd, &mut out, ds, dw, dh, t),
        _ => linear_to_rgba(&mid, fd, &mut out, ds, dw, dh, t),
    }
    out.iter().map(|&v| v as f64).collect()
}

fn check21(c: &Case, o: &mut Obs) -> Result<(), String> {
    let img = picture(c);
    let r = exec(c, &img);
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    if !r.pad_ok {
        return Err(format!("{}: row padding of the destination was written", c.class()));
    }
    let got = r.values(c);
    crate::cpu::set(c.cpu);
    let want = composed(c, &img);
    crate::cpu::set(usize::MAX);
    // (tables of linear light have less than a level near black)
    let slack = if c.kind == Kind::Jzazbz { 2.0 } else { 1.0 };
    for i in 0..got.len() {
        if (got[i] - want[i]).abs() > slack {
            return Err(format!(
                "{} {:?}: {} is {} where converting, resampling and converting back gives {}",
                c.class(), transfer(c.tf), where_(c, i), got[i], want[i]
            ));
        }
    }
    // alpha is resampled as stored
    if c.ch == 4 && !ill(c) && c.filter != filt::NEAREST && !(c.sw == c.dw && c.sh == c.dh) {
        let al: Vec<f64> = img.iter().skip(3).step_by(4).cloned().collect();
        let m = if c.kind == Kind::LinearApprox {
            arith(c)
        } else {
            Model { clamp: None, round: 1e-3, rel: 4e-6, qw: 0.0, tap: 0.0, sat: false }
        };
        let w = refm::resample(c.filter, &refm::points(&al), 1, c.sw, c.sh, c.dw, c.dh, &m);
        for (i, w) in w.iter().enumerate() {
            let g = got[i * 4 + 3];
            // the conversion back may truncate or round
            if g < w.lo.clamp(0.0, 255.0) - w.tol - 1.0 || g > w.hi.clamp(0.0, 255.0) + w.tol + 1.0 {
                return Err(format!("{}: alpha at x={} y={} is {g}, resampled as stored it is {:.4}..{:.4}", c.class(), i % c.dw, i / c.dw, w.lo, w.hi));
            }
        }
    }
    o.evals += got.len() as u64;
    o.sig_case(c);
    Ok(())
}
pub const C21: Prop = Prop {
    id: "C21", gen: gen21, check: check21, quick: 5000, thorough: 60000, serial: false, per_model: false,
    rule: "One case is one RGB or RGBA request to one of the nine colour-space scalers with a transfer function; the result is compared with converting by the colour library, resizing in that space with dense rows, and converting back, and alpha with the reference resampling. Non-trivial: sizes differ; distinct: differing in scaler, transfer function, filter, sizes, processor or picture kind.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ to a colour space and back

/// Transfer functions that map 0..1 onto 0..1 (PQ and HLG are clipped by construction).
const PLAIN_TF: u32 = 6;

fn gen28(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::U8S);
    gen::color(r, &mut c);
    c.kind = COLOR_KINDS[i % COLOR_KINDS.len()];
    c.tf = r.below(PLAIN_TF as usize) as u32;
    gen::avoid_finding(&mut c);
    // The colour library's row conversions of these spaces are wrong for some colours where it
    // uses AVX2 (or SSE4.1): those requests are replayed on their own (see known_findings.json)
    match c.kind {
        Kind::Lab | Kind::Luv | Kind::Oklab if c.cpu > 5 => c.cpu = r.below(6),
        Kind::Lch if c.cpu > 0 => c.cpu = 0,
        _ => (),
    }
    if r.chance(0.6) {
        c.filter = filt::NEAREST;
    }
    c.sw = c.sw.min(120);
    c.sh = c.sh.min(40);
    c.dw = c.dw.min(120);
    c.dh = c.dh.min(40);
    gen::not_same(r, &mut c);
    c.premul = c.ch == 4 && r.chance(0.4);
    c
}

/// Colours of every kind: random, greys, nearly grey, corners of the cube, dark, bright, one hue.
fn colours(c: &Case) -> Vec<f64> {
    let mut r = Rng::new(c.seed);
    let flat = c.filter != filt::NEAREST;
    let n = if flat { 1 } else { c.sw * c.sh };
    let mut v = Vec::with_capacity(c.sw * c.sh * c.ch);
    let hue = [r.below(256), r.below(256), r.below(256)];
    for i in 0..n {
        let px: [usize; 3] = match c.content {
            0 | 1 => [r.below(256), r.below(256), r.below(256)],
            2 => [r.below(256); 3],
            3 => {
                let g = r.below(254);
                [g + r.below(3), g + r.below(3), g + r.below(3)]
            }
            4 => [r.below(2) * 255, r.below(2) * 255, r.below(2) * 255],
            5 => [r.below(12), r.below(12), r.below(12)],
            6 => [244 + r.below(12), 244 + r.below(12), 244 + r.below(12)],
            _ => hue.map(|h| h * (i % 64) / 63),
        };
        v.extend(px.iter().map(|&p| p as f64));
        if c.ch == 4 {
            v.push(match c.alpha {
                0 => 255,
                1 => r.below(2) * 255,
                2 => r.range(1, 6),
                _ => r.below(256),
            } as f64);
        }
    }
    if flat {
        v = v.iter().cloned().cycle().take(c.sw * c.sh * c.ch).collect();
    }
    v
}

/// What may come back for an 8-bit sample: the tables hold 2049 (the fast linear scaler 256) steps
/// of linear light, the conversion may truncate, and the opponent spaces add arithmetic of their own.
fn back(c: &Case, v: f64) -> (f64, f64) {
    let t = if matches!(c.kind, Kind::Oklab | Kind::Jzazbz | Kind::Linear | Kind::LinearApprox) { transfer(c.tf) } else { pic_scale::TransferFunction::Srgb };
    let (h, k) = match c.kind {
        Kind::LinearApprox => (1.05 / 255.0, 0.0),
        Kind::Luv | Kind::Lch => (0.75 / 2048.0, 2.0),
        Kind::Jzazbz => (0.75 / 2048.0, 1.0),
        _ => (0.75 / 2048.0, 0.0),
    };
    if t == pic_scale::TransferFunction::Linear {
        return (v - 1.0 - k - 255.0 * h, v + 1.0 + k + 255.0 * h);
    }
    let lin = t.linearize((v / 255.0) as f32) as f64;
    let f = |x: f64| t.gamma(x.max(0.0) as f32) as f64 * 255.0;
    // what exceeds 1 may be clipped before or after
    (f((lin - h).min(1.0)) - 1.0 - k, f(lin + h) + 1.0 + k)
}

fn check28(c: &Case, o: &mut Obs) -> Result<(), String> {
    let img = colours(c);
    let r = exec(c, &img);
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    let got = r.values(c);
    let n = c.ch;
    let flat = c.filter != filt::NEAREST;
    if flat && ill(c) {
        // the weights mean nothing in single precision
        return Ok(());
    }
    let pick = |i: usize, a: usize, b: usize| ((2 * i + 1) * a - 1) / (2 * b);
    let near = |i: usize, a: usize, b: usize| {
        // two are equally near on a border
        let j = pick(i, a, b);
        let tie = ((2 * i + 1) * a) % (2 * b) == 0;
        if tie { (j, (j + 1).min(a - 1)) } else { (j, j) }
    };
    for y in 0..c.dh {
        for x in 0..c.dw {
            let g = &got[(y * c.dw + x) * n..][..n];
            let (xs, ys) = (near(x, c.sw, c.dw), near(y, c.sh, c.dh));
            let mut said = None;
            let ok = [(xs.0, ys.0), (xs.1, ys.0), (xs.0, ys.1), (xs.1, ys.1)].iter().any(|&(sx, sy)| {
                let p = &img[(sy * c.sw + sx) * n..][..n];
                let clear = c.premul && p[3] == 0.0;
                let fine = (0..n).all(|k| {
                    let (lo, hi) = if k == 3 {
                        let s = if flat { 1.0 } else { 0.0 };
                        (p[k] - s, p[k] + s)
                    } else {
                        back(c, p[k])
                    };
                    (clear && k < 3) || (g[k] >= lo - 1e-3 && g[k] <= hi + 1e-3)
                });
                if !fine && said.is_none() {
                    said = Some(format!("{g:?} for {p:?}"));
                }
                fine
            });
            if !ok {
                return Err(format!(
                    "{} {:?}: {} picture, pixel x={x} y={y} came back as {}",
                    c.class(), transfer(c.tf), if flat { "a flat" } else { "a nearest-sampled" }, said.unwrap()
                ));
            }
        }
    }
    o.evals += got.len() as u64;
    o.add("pixels taken to the space and back", (c.dw * c.dh) as f64);
    o.sig_case(c);
    Ok(())
}
pub const C28: Prop = Prop {
    id: "C28", gen: gen28, check: check28, quick: 9000, thorough: 120000, serial: false, per_model: false,
    rule: "One case is one RGB or RGBA request to one of the nine colour-space scalers that mixes no colours, either because nearest neighbour chooses among them or because the picture has one colour; every pixel of the result is compared with the colour it must keep, to within the resolution of the conversion tables. Non-trivial: sizes differ; distinct: differing in scaler, transfer function, filter, sizes, processor or picture kind.",
    init: None, fini: None,
};
