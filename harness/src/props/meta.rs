//! Monitors that compare several executions with each other, or a result with its own input.
use super::gen;
use super::model::{arith, ill, where_};
use super::Prop;
use crate::case::*;
use crate::cpu;
use crate::drive::{Obs, Tier};
use crate::exec::*;
use crate::filt;
use crate::fresh::{self, came, Came};
use crate::guard;
use crate::pict::picture;
use crate::refm;
use crate::rng::Rng;
use std::sync::atomic::Ordering::*;

type R = Result<(), String>;

fn run(c: &Case, img: &[f64], o: &mut Obs) -> Result<Out, String> {
    let r = exec(c, img);
    o.evals += 1;
    match r.fault() {
        Some(f) => {
            o.blame = Some(c.clone());
            Err(format!("{}: {f}", c.class()))
        }
        None => Ok(r),
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(0);
    }
    (0..a.len()).find(|&i| a[i] != b[i])
}
fn at(c: &Case, byte: usize) -> String {
    let e = if c.fmt.packed() { byte / 4 * 4 } else { byte / c.fmt.bytes() };
    where_(c, e)
}

// ------------------------------------------------------------------ C04

fn gen04(r: &mut Rng, i: usize, t: Tier) -> Case {
    let k = r.next() as usize >> 1;
    let mut c = gen::base(r, k, t, gen::ALL);
    c.cpu = gen::cpu_of(i);
    if r.chance(0.12) {
        gen::color(r, &mut c);
    }
    gen::not_same(r, &mut c);
    c.threads = 0;
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.5);
    if r.chance(0.06) {
        // large enough for the adaptive policy to use several threads
        c.sw = r.range(30, 200);
        c.sh = r.range(30, 200);
        c.dw = r.range(400, 700);
        c.dh = r.range(330, 500);
    } else if r.chance(0.5) {
        c.dh = r.range(1, 40);
    }
    no_finding(&mut c);
    c.x = r.next() & !7 | r.below(3) as u64;
    if c.x & 7 == 1 {
        c.threads = r.pick(&[0, 0, 0, -1, 2, 3]);
        if r.chance(0.5) {
            c.sw = r.range(1, 40);
            c.sh = r.range(1, 40);
            c.dw = r.range(1, 40);
            c.dh = r.range(1, 40);
            gen::not_same(r, &mut c);
        }
    }
    c
}
/// (the processor is fixed: the layout avoids the known finding)
fn no_finding(c: &mut Case) {
    if c.kind == Kind::Sigmoid && (1..=6).contains(&c.cpu) {
        c.ch = 4;
    }
}

/// A request that differs from `c` in a thing or two.
fn neighbour(c: &Case, r: &mut Rng) -> Case {
    let mut d = c.clone();
    for _ in 0..1 + r.below(2) {
        let near = |r: &mut Rng, v: usize| match r.below(5) {
            0 => v + 1,
            1 => (v - 1).max(1),
            2 => v * 2,
            3 => v.div_ceil(2),
            _ => r.range(1, 50),
        };
        match r.below(17) {
            0 => d.sw = near(r, d.sw),
            1 => d.sh = near(r, d.sh),
            2 => d.dw = near(r, d.dw),
            3 => d.dh = near(r, d.dh),
            4 => {
                std::mem::swap(&mut d.sw, &mut d.sh);
                std::mem::swap(&mut d.dw, &mut d.dh);
            }
            5 | 6 => d.filter = r.below(49) as u32,
            7 => d.speed = !d.speed,
            8 => d.threads = r.pick(&[0, -1, 1, 2, 3, 5]),
            9 if d.planes() == 4 && !d.fmt.packed() => d.premul = !d.premul,
            // (a refused call is a call too)
            10 | 11 if d.fmt == Fmt::U16 => d.depth = r.pick(&[1, 8, 10, 12, 16, 0, 17]),
            12 if !matches!(d.kind, Kind::Plain | Kind::Generic) => {
                if r.chance(0.5) {
                    d.tf = r.below(7) as u32
                } else {
                    d.kind = r.pick(COLOR_KINDS)
                }
            }
            13 if matches!(d.kind, Kind::Plain | Kind::Generic) => {
                let (f, n) = r.pick(gen::ALL);
                d.fmt = f;
                d.ch = n;
                d.depth = if f == Fmt::U16 { d.depth.clamp(1, 16) } else if f == Fmt::U8 { 8 } else { 0 };
                if cfg!(not(feature = "half")) && f == Fmt::F16 {
                    d.fmt = Fmt::F32;
                }
                if f.packed() {
                    d.kind = Kind::Plain;
                    d.spad = d.spad / 4 * 4;
                    d.dpad = d.dpad / 4 * 4;
                }
                d.premul &= d.ch == 4 && !f.packed();
            }
            14 => d.content = r.below(crate::pict::CONTENTS as usize) as u32,
            15 => d.alpha = r.below(crate::pict::ALPHAS as usize) as u32,
            _ => d.seed = r.next() | 1,
        }
    }
    if d.fmt.packed() && d.kind == Kind::Plain {
        d.premul = false;
    }
    no_finding(&mut d);
    d
}

/// A sequence of related calls, each judged by what it gives as the first call of a process.
fn history(c: &Case, o: &mut Obs) -> R {
    let mut r = Rng::new(c.x);
    let mut pool = vec![c.clone()];
    for _ in 0..r.range(2, 5) {
        let from = if r.chance(0.7) { c.clone() } else { pool[r.below(pool.len())].clone() };
        pool.push(neighbour(&from, &mut r));
    }
    let pics: Vec<Vec<f64>> = pool.iter().map(picture).collect();
    let mut want: Vec<Option<Came>> = vec![None; pool.len()];
    // the same scaler objects throughout, or new ones for every call
    if r.chance(0.75) {
        KEPT.with(|k| *k.borrow_mut() = Some(Default::default()));
    }
    let mut told = String::new();
    let mut res = Ok(());
    for k in 0..r.range(5, 10) {
        let j = if k > 0 && r.chance(0.35) { 0 } else { r.below(pool.len()) };
        let got = came(exec(&pool[j], &pics[j]));
        o.evals += 1;
        let w = want[j].get_or_insert_with(|| fresh::ask(&pool[j]));
        if *w != got {
            res = Err(match (&got, &*w) {
                (Came::Picture(g), Came::Picture(w)) => {
                    let i = first_diff(w, g).unwrap_or(0);
                    format!("{}: as call {k} of a sequence the result differs from that of the first call of a process at {}; the call is {}", pool[j].class(), at(&pool[j], i), pool[j])
                }
                (Came::Fault(f), _) => format!("{}: as call {k} of a sequence: {f}; the call is {}", pool[j].class(), pool[j]),
                (_, Came::Fault(f)) => format!("{}: as the first call of a process: {f}; the call is {}", pool[j].class(), pool[j]),
                _ => format!("{}: as call {k} of a sequence it is accepted or refused otherwise than as the first of a process; the call is {}", pool[j].class(), pool[j]),
            } + &format!(" (calls so far:{told})"));
            break;
        }
        if let Came::Fault(f) = got {
            res = Err(format!("{}: {f}; the call is {}", pool[j].class(), pool[j]));
            break;
        }
        told += &format!(" {j}");
        o.add("calls of a sequence equal to the first call of a process", 1.0);
        if let Came::Refused(_) = got {
            o.add("of them refused", 1.0);
        }
        o.sig_case(&pool[j]);
    }
    KEPT.with(|k| *k.borrow_mut() = None);
    o.blame = Some(c.clone());
    res
}

/// Confine the process to some processors, to change how its threads are scheduled.
fn squeeze(k: usize) {
    #[cfg(not(miri))]
    unsafe {
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
        let _ = n;
        static ALLOWED: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
        let all = ALLOWED.get_or_init(|| {
            let mut s: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s);
            (0..1024).filter(|&i| libc::CPU_ISSET(i, &s)).collect()
        });
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if k == 0 {
            for &i in all {
                libc::CPU_SET(i, &mut s);
            }
        } else {
            for j in 0..k.min(all.len()) {
                libc::CPU_SET(all[(j * 3 + k) % all.len()], &mut s);
            }
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
    }
}

fn check04(c: &Case, o: &mut Obs) -> R {
    if c.x & 7 == 1 {
        return history(c, o);
    }
    let img = picture(c);
    let mut r = Rng::new(c.x);
    let mut base = c.clone();
    base.threads = 0;
    let want = run(&base, &img, o)?;
    let mut pick = vec![-1i64, 1, 2, 3, c.dh as i64 + 1, 1000];
    pick.push(r.range(4, 12) as i64);
    pick.push(r.range(13, 40) as i64);
    let mut todo = vec![0i64];
    for _ in 0..3 {
        todo.push(r.pick(&pick));
    }
    for (k, t) in todo.into_iter().enumerate() {
        let mut d = base.clone();
        d.threads = t.min(64).max(if t >= 1000 { 1000 } else { -1 });
        // another call in between must not matter
        if r.chance(0.3) {
            let mut z = base.clone();
            z.filter = r.below(49) as u32;
            let _ = exec(&z, &img);
        }
        squeeze(if k % 2 == 1 { r.range(1, 3) } else { 0 });
        let got = run(&d, &img, o);
        squeeze(0);
        let got = got?;
        if let Some(i) = first_diff(&want.raw, &got.raw) {
            o.blame = Some(c.clone());
            return Err(format!("{}: with {:?} the result differs from Single at {}", c.class(), policy(d.threads), at(c, i)));
        }
        o.add("results compared bit for bit with Single", 1.0);
        o.sig(&[c.fmt as u64, c.kind as u64, c.ch as u64, c.depth as u64, c.filter as u64, c.dw as u64, c.dh as u64, c.sw as u64, c.sh as u64, d.threads as u64, c.cpu as u64, c.speed as u64]);
    }
    Ok(())
}
pub const C04: Prop = Prop {
    id: "C04", gen: gen04, check: check04, quick: 5000, thorough: 60000, serial: false, per_model: true,
    rule: "One case is one request done on one thread, then again with four other thread settings (one, fixed counts up to more than the rows, Fixed(0), adaptive), with other calls in between and with the process confined to one to three processors; results compared bit for bit; or (one in three) a sequence of calls that differ from one another in one or two things (a size, filter, strategy, thread setting, depth, format, alpha option, picture; some of them refused), on the same scaler objects or new ones, each compared with what a process forked before the library was used gives for it as its first call. Distinct: differing in request or thread setting.",
    init: Some(fresh::start), fini: None,
};

// ------------------------------------------------------------------ C09

fn gen09(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    gen::not_same(r, &mut c);
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.4);
    c.threads = 0;
    far_from_one(r, &mut c);
    c
}
/// Sometimes floating samples of other magnitudes.
fn far_from_one(r: &mut Rng, c: &mut Case) {
    if c.fmt.float() && !c.premul && r.chance(0.2) {
        c.content = 8 + r.below(2) as u32;
    }
}
fn check09(c: &Case, o: &mut Obs) -> R {
    let models = cpu::usable_models();
    if models.len() < 2 {
        return Ok(());
    }
    let img = picture(c);
    let lim = arith(c);
    let mut outs: Vec<(usize, Vec<f64>, Vec<u8>)> = vec![];
    let mut all = models.clone();
    all.push(usize::MAX);
    for k in all {
        let mut d = c.clone();
        d.cpu = k;
        let r = run(&d, &img, o)?;
        let v = r.values(&d);
        outs.push((k, v, r.raw));
    }
    let mag = img.iter().fold(0f64, |m, v| m.max(v.abs()));
    let shaky = ill(c);
    // gain of the filter: one step after the first pass becomes this much after the second
    let gain = |n_in: usize, n_out: usize| -> f64 {
        if n_in == n_out {
            return 1.0;
        }
        refm::axis(c.filter, n_in, n_out).pos.iter().flat_map(|p| p.cands.iter().map(|(_, w)| w.iter().map(|x| x.abs()).sum::<f64>())).fold(1.0, f64::max)
    };
    let g = if c.filter == filt::NEAREST || shaky { 1.0 } else { gain(c.sw, c.dw) * gain(c.sh, c.dh) };
    let g1 = if c.filter == filt::NEAREST || shaky || c.sh == c.dh || c.sw == c.dw { 0.0 } else { gain(c.sw, c.dw) };
    let mut distinct = 1;
    for k in 1..outs.len() {
        if outs[k].2 != outs[k - 1].2 {
            distinct += 1;
        }
        for b in 0..k {
            if b != 0 && b != k - 1 {
                continue;
            }
            let (x, y) = (&outs[b].1, &outs[k].1);
            for i in 0..x.len() {
                let d = (x[i] - y[i]).abs();
                if d == 0.0 || (x[i].is_nan() && y[i].is_nan()) {
                    continue;
                }
                let tol = if c.premul || c.kind != Kind::Plain && c.kind != Kind::Generic {
                    // division by a small alpha, or a steep colour curve, enlarges one step
                    if c.fmt.float() || c.kind != Kind::Plain && c.kind != Kind::Generic {
                        continue_tol(c, x, i, g)
                    } else {
                        let a = if c.planes() == 4 { x[i / 4 * 4 + 3].min(y[i / 4 * 4 + 3]) } else { c.max() };
                        if i % 4 == 3 {
                            1.0 + g1.floor() + 2.0 * drift_steps(c)
                        } else if a <= 0.0 {
                            c.max()
                        } else {
                            2.0 + (2.0 + g1 + 2.0 * drift_steps(c)) * c.max() / a
                        }
                    }
                } else if c.fmt.float() {
                    g * mag * (2.5 * (lim.rel + 2e-6) + 2.0 * drift(c)) + 1e-7
                } else {
                    1.0 + g1.floor() + 2.0 * drift_steps(c)
                };
                if shaky && c.fmt.float() {
                    continue;
                }
                if !(d <= tol) {
                    o.blame = Some(c.clone());
                    return Err(format!(
                        "{}: {} is {} on {} and {} on {}",
                        c.class(), where_(c, i), x[i], cpu::name(outs[b].0), y[i], cpu::name(outs[k].0)
                    ));
                }
                if !c.fmt.float() {
                    o.max("largest difference in steps (no alpha)", if c.premul { 0.0 } else { d });
                }
            }
        }
    }
    o.add("processor results compared", outs.len() as f64 - 1.0);
    o.max("distinct bit patterns among processors for one request", distinct as f64);
    o.sig_case(c);
    Ok(())
}
fn continue_tol(c: &Case, x: &[f64], i: usize, g: f64) -> f64 {
    if c.kind != Kind::Plain && c.kind != Kind::Generic {
        return match c.kind {
            // eight-bit linear light: one step near black is many steps of the picture
            Kind::LinearApprox => 255.0,
            _ => 3.0 + if c.premul { 252.0 } else { 0.0 },
        };
    }
    let a = x[i / 4 * 4 + 3].abs();
    let u = if c.fmt == Fmt::F16 { 2f64.powi(-10) } else { 6e-6 } + drift(c);
    if i % 4 == 3 {
        return g * 4.0 * u + 1e-7;
    }
    if a < 1e-2 {
        return f64::INFINITY;
    }
    (g * 6.0 * u + 1e-6) / a * (1.0 + x[i].abs()) + 1e-6
}
pub const C09: Prop = Prop {
    id: "C09", gen: gen09, check: check09, quick: 4500, thorough: 50000, serial: false, per_model: false,
    rule: "One case is one request executed on every processor model this host can play (feature detection restricted to that processor's features) and on the host itself; every result is compared with the baseline's and the previous model's. Distinct: differing in format, filter, sizes, strategy, alpha or picture kind.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C11

fn gen11(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    gen::not_same(r, &mut c);
    c.content = 4;
    c.alpha = r.pick(&[0, 0, 1]);
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.3);
    if r.chance(0.12) {
        let big = if t == Tier::Thorough { 60000 } else { 9000 };
        if r.chance(0.5) {
            c.sw = r.range(700, big);
            c.sh = r.range(1, 3);
            c.dw = r.range(1, 5);
            c.dh = r.range(1, 3);
        } else {
            c.sh = r.range(700, big);
            c.sw = r.range(1, 3);
            c.dh = r.range(1, 5);
            c.dw = r.range(1, 3);
        }
        gen::not_same(r, &mut c);
    }
    c.x = r.next();
    c
}
/// Relative rounding of a single-precision sum of as many taps as the request has.
fn drift(c: &Case) -> f64 {
    1.5e-8 * 2.0 * filt::taps(c.filter) * (1.0 + c.sw as f64 / c.dw as f64 + c.sh as f64 / c.dh as f64)
}
/// The same in steps of an integer format (deep samples are summed in single precision).
fn drift_steps(c: &Case) -> f64 {
    if c.fmt == Fmt::U16 && c.depth > 12 { (c.max() * drift(c)).round() } else { 0.0 }
}
fn check11(c: &Case, o: &mut Obs) -> R {
    let mut r = Rng::new(c.x);
    let n = c.planes();
    let drift = drift(c);
    let single = if c.fmt == Fmt::F32 && ill(c) { 1e-3 } else { 6e-6 };
    for round in 0..3 {
        let colour: Vec<f64> = (0..n)
            .map(|k| {
                let m = c.max();
                if c.fmt.packed() && k == 3 {
                    return 3.0;
                }
                let v = match r.below(6) {
                    0 => m,
                    1 => 0.0,
                    2 => (m - 1.0).max(0.0),
                    3 => 1f64.min(m),
                    _ => r.f() * m,
                };
                match c.fmt {
                    Fmt::F32 => (v * if c.premul { 1.0 } else { 8.0 } - if c.premul { 0.0 } else { 3.0 }) as f32 as f64,
                    Fmt::F16 => f16_to_f64(f32_to_f16(v as f32)),
                    _ => v.round(),
                }
            })
            .collect();
        let mut colour = colour;
        if c.premul {
            if c.fmt.float() {
                colour[3] = if c.fmt == Fmt::F16 { f16_to_f64(f32_to_f16(0.25 + 0.75 * r.f() as f32)) } else { (0.25 + 0.75 * r.f() as f32) as f64 };
            } else if r.chance(0.5) {
                colour[3] = c.max();
            } else {
                colour[3] = colour[3].max(1.0);
            }
        }
        let img: Vec<f64> = (0..c.sw * c.sh).flat_map(|_| colour.iter().cloned()).collect();
        let out = run(c, &img, o)?;
        let got = out.values(c);
        for i in 0..got.len() {
            let w = colour[i % n];
            let d = (got[i] - w).abs();
            let tol = match c.fmt {
                Fmt::F32 => w.abs() * (single * (if c.premul { 2.0 } else { 1.0 }) + drift) + 1e-7,
                Fmt::F16 => w.abs() * (2f64.powi(-10) * (if c.premul { 3.0 } else { 1.5 }) + drift) + 1e-7,
                // single-precision sums of many taps may miss the last step of a deep sample
                Fmt::U16 if c.depth > 12 => (c.max() * drift).round(),
                _ => 0.0,
            };
            if !(d <= tol) {
                o.blame = Some(c.clone());
                return Err(format!("{}: {} of a uniform {} picture came out {} (round {round})", c.class(), where_(c, i), w, got[i]));
            }
        }
        o.add("samples compared", got.len() as f64);
    }
    o.sig_case(c);
    Ok(())
}
pub const C11: Prop = Prop {
    id: "C11", gen: gen11, check: check11, quick: 9000, thorough: 100000, serial: false, per_model: false,
    rule: "One case is one request on three uniform pictures (extremes and random colours), every sample of the result compared with the colour. Distinct: differing in format, filter, sizes, strategy, processor, alpha or colour space.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C12

fn gen12(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    gen::not_same(r, &mut c);
    if r.chance(0.55) {
        let av: Vec<u32> = (0..49).filter(|&f| filt::averaging(f)).collect();
        c.filter = r.pick(&av);
    }
    c.content = r.pick(&[1, 1, 5, 3, 0, 6]);
    c.alpha = r.pick(&[0, 0, 1, 2, 3]);
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.25);
    if c.fmt == Fmt::U16 && r.chance(0.6) {
        c.depth = r.range(1, 15);
    }
    far_from_one(r, &mut c);
    c
}
fn check12(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    let got = run(c, &img, o)?.values(c);
    let mx = c.max();
    let n = c.planes();
    if !c.fmt.float() {
        for (i, &g) in got.iter().enumerate() {
            let m = if c.fmt.packed() && i % 4 == 3 { 3.0 } else { mx };
            if !(0.0..=m).contains(&g) {
                return Err(format!("{}: {} is {} beyond {}", c.class(), where_(c, i), g, m));
            }
        }
    }
    // saturation: where the true average is well beyond the range the result is at the limit
    if !c.fmt.float() && !c.premul && !ill(c) && c.filter != filt::NEAREST && !(c.sw == c.dw && c.sh == c.dh) {
        let mut a = arith(c);
        a.clamp = None;
        // only one pass is done unclamped: exact for single-pass requests
        if c.sw == c.dw || c.sh == c.dh {
            let want = refm::resample(c.filter, &refm::points(&img), n, c.sw, c.sh, c.dw, c.dh, &a);
            for (i, w) in want.iter().enumerate() {
                if c.fmt.packed() && i % 4 == 3 {
                    continue;
                }
                if w.lo - w.tol > mx && got[i] != mx {
                    return Err(format!("{}: {} should saturate at {} (average {:.2}) but is {}", c.class(), where_(c, i), mx, w.lo, got[i]));
                }
                if w.hi + w.tol < 0.0 && got[i] != 0.0 {
                    return Err(format!("{}: {} should saturate at 0 (average {:.2}) but is {}", c.class(), where_(c, i), w.hi, got[i]));
                }
                if w.lo - w.tol > mx || w.hi + w.tol < 0.0 {
                    o.add("saturated samples", 1.0);
                }
            }
        }
    }
    if filt::averaging(c.filter) && !c.premul && c.filter != filt::NEAREST && !(c.sw == c.dw && c.sh == c.dh) {
        // local minimum and maximum over the source rectangle the filter can cover
        let xs = spans(c.filter, c.sw, c.dw);
        let ys = spans(c.filter, c.sh, c.dh);
        // separable: rows first
        let mut lo = vec![0.0; c.dw * c.sh * n];
        let mut hi = vec![0.0; c.dw * c.sh * n];
        for y in 0..c.sh {
            for x in 0..c.dw {
                for k in 0..n {
                    let (mut a, mut b) = (f64::MAX, f64::MIN);
                    for j in xs[x].0..xs[x].1 {
                        let v = img[(y * c.sw + j) * n + k];
                        a = a.min(v);
                        b = b.max(v);
                    }
                    lo[(y * c.dw + x) * n + k] = a;
                    hi[(y * c.dw + x) * n + k] = b;
                }
            }
        }
        for y in 0..c.dh {
            for x in 0..c.dw {
                for k in 0..n {
                    if c.fmt.packed() && k == 3 {
                        continue;
                    }
                    let (mut a, mut b) = (f64::MAX, f64::MIN);
                    for j in ys[y].0..ys[y].1 {
                        a = a.min(lo[(j * c.dw + x) * n + k]);
                        b = b.max(hi[(j * c.dw + x) * n + k]);
                    }
                    let g = got[(y * c.dw + x) * n + k];
                    let m = a.abs().max(b.abs());
                    let tol = match c.fmt {
                        Fmt::F32 => m * (4e-6 + drift(c)) + 1e-40,
                        Fmt::F16 => m * (2f64.powi(-10) * 1.2 + drift(c)) + 1e-7,
                        Fmt::U16 if c.depth > 12 => (m * drift(c)).round(),
                        _ => 0.0,
                    };
                    if g < a - tol || g > b + tol {
                        return Err(format!(
                            "{}: x={x} y={y} channel {k} is {g}, outside {a}..{b} of the source under an averaging filter",
                            c.class()
                        ));
                    }
                }
            }
        }
        o.add("samples inside the range of their neighbourhood", (c.dw * c.dh * n) as f64);
    }
    o.sig_case(c);
    Ok(())
}
pub const C12: Prop = Prop {
    id: "C12", gen: gen12, check: check12, quick: 12000, thorough: 150000, serial: false, per_model: false,
    rule: "One case is one request on a hostile picture (black and white noise, checkerboard, single bright pixel, noise); range of every sample, exact saturation where the true average is beyond the range, and containment in the local source range for averaging filters. Distinct: differing in format, filter, sizes, strategy, processor or picture kind.",
    init: None, fini: None,
};

/// Source positions each destination position may depend on.
pub fn spans(f: u32, n_in: usize, n_out: usize) -> Vec<(usize, usize)> {
    if n_in == n_out {
        return (0..n_out).map(|i| (i, i + 1)).collect();
    }
    refm::axis(f, n_in, n_out)
        .pos
        .iter()
        .map(|p| {
            let a = p.cands.iter().map(|c| c.0).min().unwrap();
            let b = p.cands.iter().map(|c| c.0 + c.1.len()).max().unwrap();
            (a, b.min(n_in))
        })
        .collect()
}

// ------------------------------------------------------------------ C13

fn gen13(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    gen::not_same(r, &mut c);
    gen::not_nearest(r, &mut c);
    while filt::is_ewa(c.filter) || c.filter == filt::NEAREST {
        c.filter = r.below(49) as u32;
    }
    c.threads = 0;
    c.x = r.below(3) as u64;
    far_from_one(r, &mut c);
    c
}
fn flip_x(v: &[f64], w: usize, n: usize) -> Vec<f64> {
    v.chunks_exact(w * n).flat_map(|row| row.chunks_exact(n).rev().flatten().cloned().collect::<Vec<_>>()).collect()
}
fn flip_y(v: &[f64], w: usize, n: usize) -> Vec<f64> {
    v.chunks_exact(w * n).rev().flatten().cloned().collect()
}
fn transpose(v: &[f64], w: usize, h: usize, n: usize) -> Vec<f64> {
    let mut o = vec![0.0; v.len()];
    for y in 0..h {
        for x in 0..w {
            o[(x * h + y) * n..][..n].copy_from_slice(&v[(y * w + x) * n..][..n]);
        }
    }
    o
}
fn check13(c: &Case, o: &mut Obs) -> R {
    if ill(c) {
        return Ok(());
    }
    // positions whose window placement is a rounding tie are excluded: either choice is right
    let solid = |n_in: usize, n_out: usize| -> Vec<bool> {
        if n_in == n_out { vec![true; n_out] } else { refm::axis(c.filter, n_in, n_out).pos.iter().map(|p| p.cands.len() == 1).collect() }
    };
    let (mut sx, mut sy) = (solid(c.sw, c.dw), solid(c.sh, c.dh));
    let gain = |n_in: usize, n_out: usize| -> f64 {
        if n_in == n_out {
            return 1.0;
        }
        refm::axis(c.filter, n_in, n_out).pos.iter().flat_map(|p| p.cands.iter().map(|(_, w)| w.iter().map(|x| x.abs()).sum::<f64>())).fold(1.0, f64::max)
    };
    let both = c.x >= 2 && c.sw != c.dw && c.sh != c.dh;
    let (gx, gy) = (gain(c.sw, c.dw), gain(c.sh, c.dh));
    let mut img = picture(c);
    if both && !c.fmt.float() && gx.max(gy) > 1.000001 {
        // clamping between the passes depends on their order: leave it no reason to happen
        if gx.max(gy) > 4.5 {
            return Ok(());
        }
        for v in img.iter_mut() {
            *v = (0.4 * c.max() + 0.2 * *v).round();
        }
    }
    let n = c.planes();
    let a = run(c, &img, o)?.values(c);
    let (b, c2, what) = match c.x {
        0 => {
            let b = run(c, &flip_x(&img, c.sw, n), o)?.values(c);
            let r = sx.clone();
            for i in 0..sx.len() {
                sx[i] &= r[r.len() - 1 - i];
            }
            (flip_x(&b, c.dw, n), c.clone(), "mirrored left to right")
        }
        1 => {
            let b = run(c, &flip_y(&img, c.sw, n), o)?.values(c);
            let r = sy.clone();
            for i in 0..sy.len() {
                sy[i] &= r[r.len() - 1 - i];
            }
            (flip_y(&b, c.dw, n), c.clone(), "mirrored top to bottom")
        }
        _ => {
            let mut d = c.clone();
            (d.sw, d.sh, d.dw, d.dh) = (c.sh, c.sw, c.dh, c.dw);
            let b = run(&d, &transpose(&img, c.sw, c.sh, n), o)?.values(&d);
            (transpose(&b, d.dw, d.dh, n), d, "transposed")
        }
    };
    let m = arith(c);
    let want = refm::resample(c.filter, &refm::points(&img), n, c.sw, c.sh, c.dw, c.dh, &m);
    // transposed, the passes come in the other order, and so does the rounding between them
    let other = (c.x >= 2).then(|| refm::resample(c.filter, &refm::points(&transpose(&img, c.sw, c.sh, n)), n, c2.sw, c2.sh, c2.dw, c2.dh, &m));
    let mut k = 0;
    for i in 0..a.len() {
        let p = i / n;
        if !sx[p % c.dw] || !sy[p / c.dw] || (c.fmt.packed() && i % 4 == 3) {
            continue;
        }
        let mut tol = match &other {
            None => 2.0 * want[i].tol,
            Some(w) => want[i].tol + w[(p % c.dw * c.dh + p / c.dw) * n + i % n].tol,
        };
        if !c.fmt.float() {
            tol = tol.floor().max(1.0);
        } else {
            tol += 1e-7;
        }
        if !((a[i] - b[i]).abs() <= tol) {
            return Err(format!("{}: the picture {what} gives {} at {}, the original {}", c.class(), b[i], where_(c, i), a[i]));
        }
        k += 1;
    }
    o.add("samples compared with their mirror image", k as f64);
    if k > 0 {
        o.sig_case(c);
    }
    Ok(())
}
pub const C13: Prop = Prop {
    id: "C13", gen: gen13, check: check13, quick: 9000, thorough: 100000, serial: false, per_model: false,
    rule: "One case is one request and its mirror image (x, y) or transpose; samples compared after undoing the transformation. Non-trivial: at least one sample whose window placement is not a rounding tie was compared.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C14

fn gen14(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    if r.chance(0.2) {
        gen::color(r, &mut c);
    }
    let u = if c.fmt.packed() { 4 } else { 1 };
    c.spad = r.range(1, 37) * u;
    c.dpad = r.range(1, 37) * u;
    if r.chance(0.1) {
        c.spad = 0;
    }
    if r.chance(0.1) {
        c.dpad = 0;
    }
    if c.fmt.packed() && r.chance(0.3) {
        // strides of packed pictures are in bytes and need not be multiples of the pixel
        c.spad += r.below(4);
        c.dpad += r.below(4);
    }
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.5);
    if r.chance(0.08) {
        c.dw = c.sw;
        c.dh = c.sh;
    }
    if r.chance(0.06) {
        c.filter = filt::NEAREST;
    }
    if r.chance(0.01) {
        // rows so far apart that offsets into the image do not fit 31 or 32 bits
        if c.fmt == Fmt::F16 {
            // (its portable code converts the padding along with the rows)
            c.cpu = usize::MAX;
            c.ch = 4;
        }
        c.sw = c.sw.min(300);
        c.dw = c.dw.min(300);
        c.sh = r.range(2, 90);
        c.dh = r.range(2, 90);
        // (colour-space scalers cut strides to 32 bits, a listed finding)
        let cut = if matches!(c.kind, Kind::Plain | Kind::Generic) { usize::MAX } else { (1 << 32) - 10_000 };
        let far = |r: &mut Rng, h: usize| ((1usize << r.pick(&[31, 32])) / (h - 1) / u * u + r.below(4000) * u).min(cut);
        let (a, b) = (far(r, c.sh), far(r, c.dh));
        match r.below(3) {
            0 => c.spad = a,
            1 => c.dpad = b,
            _ => {
                c.spad = a;
                c.dpad = b;
            }
        }
    }
    c
}
fn check14(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    let mut dense = c.clone();
    dense.spad = 0;
    dense.dpad = 0;
    dense.dfill = !c.dfill;
    dense.threads = 0;
    let want = run(&dense, &img, o)?;
    for pad in [&[0x33u8, 0xEE, 0x7F, 0x01, 0x80][..], &[0xFF], &[0x00], &[0x7C, 0xFE, 0xFF]] {
        let r = exec_pad(c, &img, pad);
        o.evals += 1;
        if let Some(f) = r.fault() {
            return Err(format!("{}: {f} (stride {}+{}, {}+{})", c.class(), c.sw * c.planes(), c.spad, c.dw * c.planes(), c.dpad));
        }
        if !r.pad_ok {
            return Err(format!("{}: row padding of the destination was written", c.class()));
        }
        if let Some(i) = first_diff(&want.raw, &r.raw) {
            return Err(format!("{}: with padded rows the result differs at {} from that of dense rows", c.class(), at(c, i)));
        }
        o.add("padded results equal to the dense one", 1.0);
        if c.spad.max(c.dpad) > 1 << 20 {
            o.add("of them with offsets past 31 or 32 bits", 1.0);
        }
    }
    o.sig_case(c);
    o.sig(&[c.fmt as u64, c.kind as u64, c.ch as u64, c.filter as u64, c.spad as u64, c.dpad as u64, c.threads as u64, c.cpu as u64]);
    Ok(())
}
pub const C14: Prop = Prop {
    id: "C14", gen: gen14, check: check14, quick: 8000, thorough: 100000, serial: false, per_model: false,
    rule: "One case is one request with dense rows and the complement as the destination's earlier contents, then with padded rows and four patterns of source padding; results compared bit for bit and destination padding with its earlier contents. Distinct: differing in request or padding.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C15

fn gen15(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    if r.chance(0.15) {
        gen::color(r, &mut c);
    }
    c.dw = c.sw;
    c.dh = c.sh;
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.5);
    c.threads = r.pick(&[0, 0, -1, 1, 3]);
    c
}
fn check15(c: &Case, o: &mut Obs) -> R {
    let mut img = picture(c);
    // samples no arithmetic preserves
    let mut r = Rng::new(c.seed ^ 77);
    for v in img.iter_mut() {
        if r.chance(0.2) {
            *v = match c.fmt {
                Fmt::F32 | Fmt::F16 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, 6.0e-8, 60000.0, -1.5]),
                Fmt::U16 => r.below(65536) as f64,
                _ => *v,
            };
            if c.fmt == Fmt::F16 {
                *v = f16_to_f64(f32_to_f16(*v as f32));
            } else if c.fmt == Fmt::F32 {
                *v = *v as f32 as f64;
            }
        }
    }
    let out = run(c, &img, o)?;
    if !out.pad_ok {
        return Err(format!("{}: row padding of the destination was written", c.class()));
    }
    let got = out.values(c);
    for i in 0..got.len() {
        if got[i].to_bits() != img[i].to_bits() {
            return Err(format!("{}: {} is {} after a same-size resize of {}", c.class(), where_(c, i), got[i], img[i]));
        }
    }
    o.add("samples copied exactly", got.len() as f64);
    o.sig_case(c);
    o.sig(&[c.fmt as u64, c.ch as u64, c.spad as u64, c.dpad as u64]);
    Ok(())
}
pub const C15: Prop = Prop {
    id: "C15", gen: gen15, check: check15, quick: 12000, thorough: 150000, serial: false, per_model: false,
    rule: "One case is one request with equal sizes on a picture with out-of-depth values, infinities, subnormals and negative zeros; samples compared bit for bit. Distinct: differing in format, filter, size, strides, options.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C16

fn gen16(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    c.filter = filt::NEAREST;
    c.content = r.pick(&[0, 0, 0, 1, 7]);
    gen::not_same(r, &mut c);
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.3);
    c.threads = r.pick(&[0, 0, -1, 1, 2, 5]);
    if r.chance(0.03) {
        // coordinates beyond what single precision can tell apart
        c.sw = r.range(3000, 9000);
        c.sh = 1;
        c.dw = r.range(3000, 9000);
        c.dh = r.range(1, 2);
    }
    c
}
fn check16(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    let out = run(c, &img, o)?;
    if !out.pad_ok {
        return Err(format!("{}: row padding of the destination was written", c.class()));
    }
    let got = out.values(c);
    let n = c.planes();
    // both neighbours where the exact position is within single-precision reach of a cell border
    let cells = |n_in: usize, n_out: usize| -> Vec<(usize, usize)> {
        (0..n_out)
            .map(|i| {
                let (num, den) = ((2 * i as u64 + 1) * n_in as u64, 2 * n_out as u64);
                let k = (num / den) as usize;
                let fr = (num % den) as f64 / den as f64;
                let eps = (k as f64 + 1.0) * 3e-7;
                let lo = if fr < eps { k.saturating_sub(1) } else { k };
                let hi = if 1.0 - fr < eps { (k + 1).min(n_in - 1) } else { k };
                // on the border of two cells both are nearest
                (lo, hi)
            })
            .collect()
    };
    let (xs, ys) = (cells(c.sw, c.dw), cells(c.sh, c.dh));
    for y in 0..c.dh {
        for x in 0..c.dw {
            let g = &got[(y * c.dw + x) * n..][..n];
            let mut ok = false;
            for sy in ys[y].0..=ys[y].1 {
                for sx in xs[x].0..=xs[x].1 {
                    let s = &img[(sy * c.sw + sx) * n..][..n];
                    ok |= g.iter().zip(s).all(|(a, b)| a.to_bits() == b.to_bits());
                }
            }
            if !ok {
                let sy = ys[y].0;
                let sx = xs[x].0;
                return Err(format!(
                    "{}: destination pixel x={x} y={y} is {g:?}, its nearest source pixel x={sx} y={sy} is {:?}",
                    c.class(), &img[(sy * c.sw + sx) * n..][..n]
                ));
            }
        }
    }
    o.add("pixels compared with their nearest source pixel", (c.dw * c.dh) as f64);
    o.sig_case(c);
    o.sig(&[c.fmt as u64, c.ch as u64, c.spad as u64, c.dpad as u64, c.threads as u64]);
    Ok(())
}
pub const C16: Prop = Prop {
    id: "C16", gen: gen16, check: check16, quick: 12000, thorough: 150000, serial: false, per_model: false,
    rule: "One case is one nearest-neighbour request; each destination pixel compared bit for bit with the source pixel at floor((i + 1/2) * in / out), computed in integers. Distinct: differing in format, sizes, strides or threads.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C18

fn gen18(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::RGBA);
    gen::not_same(r, &mut c);
    gen::not_nearest(r, &mut c);
    c.premul = true;
    c.content = r.pick(&[0, 1, 2, 7]);
    c.x = r.below(2) as u64;
    c.alpha = if c.x == 0 { r.pick(&[2, 3, 6]) } else { 1 };
    c
}
fn check18(c: &Case, o: &mut Obs) -> R {
    let mut img = picture(c);
    if c.x == 1 {
        // opaque: the option changes nothing
        let a = run(c, &img, o)?;
        let mut d = c.clone();
        d.premul = false;
        let b = run(&d, &img, o)?;
        if c.fmt == Fmt::F16 {
            // half floats are always premultiplied: exact for opaque pixels only where the
            // resampled alpha is one
        }
        let (x, y) = (a.values(c), b.values(c));
        for i in 0..x.len() {
            if x[i] != y[i] {
                if c.fmt == Fmt::F16 && (x[i] - y[i]).abs() <= 2.0 * 2f64.powi(-10) * y[i].abs() + 1e-7 {
                    continue;
                }
                return Err(format!("{}: opaque picture: {} is {} with premultiplication and {} without", c.class(), where_(c, i), x[i], y[i]));
            }
        }
        o.add("opaque results equal with and without premultiplication", 1.0);
        o.sig_case(c);
        return Ok(());
    }
    let mut r = Rng::new(c.seed ^ 5);
    let mut holes = 0;
    for p in img.chunks_exact_mut(4) {
        if r.chance(0.35) {
            p[3] = 0.0;
        }
        if p[3] == 0.0 {
            holes += 1;
        }
    }
    if holes == 0 || holes * 4 == img.len() {
        return Ok(());
    }
    let a = run(c, &img, o)?;
    let mut other = img.clone();
    for p in other.chunks_exact_mut(4) {
        if p[3] == 0.0 {
            for k in 0..3 {
                p[k] = if c.fmt.float() { r.pick(&[0.0, 1.0, 0.5, 2.0]) } else { r.pick(&[0.0, c.max(), (c.max() / 2.0).floor()]) };
            }
        }
    }
    let b = run(c, &other, o)?;
    let (x, y) = (a.values(c), b.values(c));
    for i in 0..x.len() {
        if x[i] != y[i] {
            return Err(format!(
                "{}: {} (alpha {}) is {} or {} depending on the colour of transparent source pixels",
                c.class(), where_(c, i), x[i / 4 * 4 + 3], x[i], y[i]
            ));
        }
    }
    o.add("transparent source pixels recoloured", holes as f64);
    o.sig_case(c);
    Ok(())
}
pub const C18: Prop = Prop {
    id: "C18", gen: gen18, check: check18, quick: 12000, thorough: 120000, serial: false, per_model: false,
    rule: "One case is one premultiplied request on a picture with transparent pixels, repeated with those pixels recoloured (bit-equal results), or on an opaque picture with and without the option (equal results). Distinct: differing in format, filter, sizes, alpha pattern, strategy or processor.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C19

fn gen19(r: &mut Rng, i: usize, t: Tier) -> Case {
    let multi: Vec<(Fmt, usize)> = gen::TYPED.iter().cloned().filter(|x| x.1 > 1).collect();
    let mut c = gen::base(r, i, t, &multi);
    gen::not_same(r, &mut c);
    c.x = r.next();
    c.content = r.pick(&[0, 0, 1, 2, 3, 7]);
    c
}
fn check19(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    let n = c.ch;
    let a = run(c, &img, o)?.values(c);
    let mut r = Rng::new(c.x);
    let gain = |n_in: usize, n_out: usize| -> f64 {
        if n_in == n_out || c.filter == filt::NEAREST {
            return 1.0;
        }
        refm::axis(c.filter, n_in, n_out).pos.iter().flat_map(|p| p.cands.iter().map(|(_, w)| w.iter().map(|x| x.abs()).sum::<f64>())).fold(1.0, f64::max)
    };
    let shaky = c.filter != filt::NEAREST && ill(c);
    let g = if shaky { 4.0 } else { gain(c.sw, c.dw) * gain(c.sh, c.dh) };
    let steps = if c.sw != c.dw && c.sh != c.dh && !shaky { 1.0 + gain(c.sw, c.dw).floor() } else { 1.0 };
    let mag = img.iter().fold(0f64, |m, v| m.max(v.abs()));
    let tol = if c.fmt.float() { g * mag * (2.5 * (arith(c).rel + 2e-6) + 2.0 * drift(c)) + 1e-7 } else { steps + 2.0 * drift_steps(c) };
    // as a plane
    let k = r.below(n);
    if !(shaky && c.fmt.float()) {
        let plane: Vec<f64> = img.iter().skip(k).step_by(n).cloned().collect();
        let mut p = c.clone();
        p.ch = 1;
        let b = run(&p, &plane, o)?.values(&p);
        for i in 0..b.len() {
            let d = (a[i * n + k] - b[i]).abs();
            if !c.fmt.float() {
                o.max("largest difference between layouts in steps", d);
            }
            if !(d <= tol) {
                o.blame = Some(c.clone());
                return Err(format!("{}: channel {k} at x={} y={} is {} but {} as a plane", c.class(), i % c.dw, i / c.dw, a[i * n + k], b[i]));
            }
        }
        o.add("channels compared with planes", 1.0);
    }
    // other channels replaced: this one must not notice
    let mut other = img.clone();
    for (i, v) in other.iter_mut().enumerate() {
        if i % n != k {
            *v = match c.fmt {
                Fmt::F32 => r.pick(&[0.0, 1e30, -1e30, 0.5]),
                Fmt::F16 => r.pick(&[0.0, 60000.0, -60000.0, 0.5]),
                _ => r.pick(&[0.0, c.max(), (c.max() / 2.0).floor()]),
            };
            if c.fmt == Fmt::F32 {
                *v = *v as f32 as f64;
            }
        }
    }
    let b = run(c, &other, o)?.values(c);
    for i in (k..a.len()).step_by(n) {
        if a[i] != b[i] {
            return Err(format!("{}: {} changes from {} to {} when other channels change", c.class(), where_(c, i), a[i], b[i]));
        }
    }
    // permuted
    let mut perm: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        perm.swap(i, r.below(i + 1));
    }
    let pi: Vec<f64> = img.chunks_exact(n).flat_map(|p| perm.iter().map(|&j| p[j]).collect::<Vec<_>>()).collect();
    let b = run(c, &pi, o)?.values(c);
    for p in 0..c.dw * c.dh {
        for (j, &s) in perm.iter().enumerate() {
            let d = (b[p * n + j] - a[p * n + s]).abs();
            if !(d <= tol) {
                return Err(format!("{}: permuting channels by {perm:?} gives {} for {} at x={} y={}", c.class(), b[p * n + j], a[p * n + s], p % c.dw, p / c.dw));
            }
        }
    }
    o.add("channel permutations compared", 1.0);
    o.sig_case(c);
    Ok(())
}
pub const C19: Prop = Prop {
    id: "C19", gen: gen19, check: check19, quick: 9000, thorough: 100000, serial: false, per_model: false,
    rule: "One case is one multi-channel request; one channel is compared with the same samples as a plane, stays bit-equal when the other channels are replaced by extremes, and follows a random permutation of the channels. Distinct: differing in format, filter, sizes, strategy, processor or picture kind.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C23

fn gen23(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::TYPED);
    c.kind = Kind::Generic;
    c.speed = true;
    c.premul = r.chance(0.5);
    c.threads = if r.chance(0.4) { -1 } else { 0 };
    c
}
fn check23(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    let a = run(c, &img, o)?;
    let mut d = c.clone();
    d.kind = Kind::Plain;
    d.premul = c.premul && c.ch == 4;
    let b = run(&d, &img, o)?;
    if let Some(i) = first_diff(&b.raw, &a.raw) {
        return Err(format!("{}: the generic interface differs from the specific one at {}", c.class(), at(c, i)));
    }
    if a.pad_ok != b.pad_ok {
        return Err(format!("{}: the generic interface writes row padding", c.class()));
    }
    // the options are not ignored
    if c.premul && c.ch == 4 && c.alpha >= 2 {
        o.add("alpha requests compared", 1.0);
    }
    o.sig_case(c);
    Ok(())
}
pub const C23: Prop = Prop {
    id: "C23", gen: gen23, check: check23, quick: 9000, thorough: 90000, serial: false, per_model: false,
    rule: "One case is one request through the generic interface and through the entry point of its format; results compared bit for bit. Distinct: differing in format, filter, sizes, options, processor or picture kind.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C25

fn gen25(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    gen::not_same(r, &mut c);
    if r.chance(0.5) {
        // room outside the window
        c.sw = c.sw.max(r.range(8, 60));
        c.sh = c.sh.max(r.range(8, 40));
    }
    c.x = r.next();
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.2);
    c
}
fn check25(c: &Case, o: &mut Obs) -> R {
    let mut r = Rng::new(c.x);
    let mut img = picture(c);
    let n = c.planes();
    if c.premul {
        // keep the picture translucent whatever is changed below
        for p in img.chunks_exact_mut(4) {
            p[3] = if c.fmt.float() { 0.25 + 0.5 * ((r.next() & 1) as f64) } else { (c.max() * r.pick(&[0.4, 0.9])).round().max(1.0) };
        }
    }
    guard::POISON.store(0, SeqCst);
    let a = run(c, &img, o)?;
    // fresh memory filled with two patterns: nothing may show through
    for p in [0xFFu8, 0x7B] {
        guard::POISON.store(p, SeqCst);
        let b = run(c, &img, o);
        guard::POISON.store(0, SeqCst);
        if let Some(i) = first_diff(&a.raw, &b?.raw) {
            return Err(format!("{}: the result depends on uninitialised memory at {}", c.class(), at(c, i)));
        }
        o.add("results independent of fresh memory's contents", 1.0);
    }
    // change a rectangle of source pixels
    let nearest = c.filter == filt::NEAREST;
    let sp = |n_in: usize, n_out: usize| -> Vec<(usize, usize)> {
        if nearest {
            (0..n_out)
                .map(|i| {
                    let k = ((i as f64 + 0.5) * n_in as f64 / n_out as f64).floor() as usize;
                    (k.saturating_sub(1), (k + 2).min(n_in))
                })
                .collect()
        } else {
            spans(c.filter, n_in, n_out)
        }
    };
    let (xs, ys) = (sp(c.sw, c.dw), sp(c.sh, c.dh));
    for _ in 0..3 {
        let x0 = r.below(c.sw);
        let y0 = r.below(c.sh);
        let x1 = if r.chance(0.3) { c.sw } else { r.range(x0 + 1, c.sw) };
        let y1 = if r.chance(0.3) { c.sh } else { r.range(y0 + 1, c.sh) };
        let nasty = c.fmt.float() && !c.premul && r.chance(0.7);
        let mut other = img.clone();
        for y in y0..y1 {
            for x in x0..x1 {
                for k in 0..n {
                    if c.premul && k == 3 {
                        continue;
                    }
                    other[(y * c.sw + x) * n + k] = match c.fmt {
                        Fmt::F32 | Fmt::F16 if nasty => r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                        Fmt::F32 => (r.f() as f32) as f64,
                        Fmt::F16 => f16_to_f64(f32_to_f16(r.f() as f32)),
                        _ if c.fmt.packed() && k == 3 => r.below(4) as f64,
                        _ => r.pick(&[0.0, c.max()]),
                    };
                }
            }
        }
        let b = run(c, &other, o)?;
        let px = a.raw.len() / (c.dw * c.dh);
        let mut untouched = 0;
        for y in 0..c.dh {
            for x in 0..c.dw {
                let hit = xs[x].0 < x1 && xs[x].1 > x0 && ys[y].0 < y1 && ys[y].1 > y0;
                if hit {
                    continue;
                }
                untouched += 1;
                let p = (y * c.dw + x) * px;
                if a.raw[p..p + px] != b.raw[p..p + px] {
                    return Err(format!(
                        "{}: destination pixel x={x} y={y} (window x {:?} y {:?}) changes with source pixels x {x0}..{x1} y {y0}..{y1}{}",
                        c.class(), xs[x], ys[y], if nasty { " (not finite)" } else { "" }
                    ));
                }
            }
        }
        o.add("destination pixels that had to stay and stayed", untouched as f64);
        if nasty {
            o.add("of them beside infinities and not-a-numbers, requests", 1.0);
        }
        if untouched > 0 {
            o.sig_case(c);
        }
    }
    Ok(())
}
pub const C25: Prop = Prop {
    id: "C25", gen: gen25, check: check25, quick: 7000, thorough: 80000, serial: false, per_model: false,
    rule: "One case is one request; it is repeated with fresh memory filled with two patterns, and with three rectangles of source pixels replaced (by not-a-number and infinities in floating formats); destination pixels whose filter window misses the rectangle must stay bit-equal. Non-trivial: at least one such pixel.",
    init: None, fini: None,
};
