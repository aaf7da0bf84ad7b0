//! Memory, faults, threads, instructions and resources.
use super::gen;
use super::Prop;
use crate::case::*;
use crate::cpu;
use crate::drive::{self, Obs, Tier};
use crate::exec::*;
use crate::filt;
use crate::guard;
use crate::pict::picture;
use crate::rng::Rng;
use pic_scale::*;
use std::sync::atomic::Ordering::*;

type R = Result<(), String>;

/// Any entry point of the library.
fn anything(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    let k = r.below(100);
    if k < 10 {
        gen::color(r, &mut c);
    } else if k < 20 && !c.fmt.packed() {
        c.kind = Kind::Generic;
    }
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.5);
    if c.premul && c.alpha < 2 {
        c.alpha = r.below(7) as u32;
    }
    c
}

// ------------------------------------------------------------------ C01

fn gen01(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = anything(r, i, t);
    c.sfront = r.chance(0.35);
    c.dfront = r.chance(0.35);
    c.x = (r.chance(0.3)) as u64;
    c
}
fn check01(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    WATCHED.store(cfg!(not(psv_system_alloc)), SeqCst);
    guard::FENCE_FRONT.store(c.x & 1 == 1, SeqCst);
    let f0 = guard::FENCED.load(Relaxed);
    let r = exec(c, &img);
    WATCHED.store(false, SeqCst);
    o.add("temporaries fenced by inaccessible pages", (guard::FENCED.load(Relaxed) - f0) as f64);
    if !r.canary_ok {
        return Err(format!("{}: bytes outside an image buffer were overwritten", c.class()));
    }
    if !r.src_ok {
        return Err(format!("{}: the source image was modified", c.class()));
    }
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    o.evals += 1;
    o.sig_case(c);
    Ok(())
}
pub const C01: Prop = Prop {
    id: "C01", gen: gen01, check: check01, quick: 24000, thorough: 400000, serial: false, per_model: false,
    rule: "One case is one request with both images placed against inaccessible pages (at the end or at the start), the source read-only, and every temporary of the library fenced likewise (or the AddressSanitizer build). Distinct: differing in format, entry point, filter, sizes, strategy, threads, processor or picture kind.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C02

fn gen02(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = anything(r, i, t);
    if r.chance(0.35) {
        // degenerate and extreme
        let big = if t == Tier::Thorough { 60000 } else { 9000 };
        let pickd = |r: &mut Rng| match r.below(6) {
            0 | 1 => 1,
            2 => 2,
            3 => r.range(1, 6),
            4 => r.range(1, 300),
            _ => r.range(300, big),
        };
        loop {
            c.sw = pickd(r);
            c.sh = pickd(r);
            c.dw = pickd(r);
            c.dh = pickd(r);
            let lim = 150_000;
            // the weight tables grow with sizes too: enlarging keeps them at a few taps
            if c.sw * c.sh < lim && c.dw * c.dh < lim && c.sw * c.dh < lim {
                break;
            }
        }
        if c.kind != Kind::Plain && c.kind != Kind::Generic {
            c.sw = c.sw.min(600);
            c.sh = c.sh.min(600);
            c.dw = c.dw.min(600);
            c.dh = c.dh.min(600);
        }
    }
    c.content = r.below(crate::pict::CONTENTS as usize) as u32;
    if i % 1680 == 3 && i < 1680 * VAST {
        // as large as images come: no 31-bit and, mostly, no 32-bit count of samples
        c.kind = Kind::Plain;
        c.x = 1 + (i / 1680 % 3) as u64;
        c.threads = r.pick(&[0, 0, 2, -1]);
        c.premul = false;
        (c.fmt, c.ch) = r.pick(&[(Fmt::U8, 1), (Fmt::U8, 2), (Fmt::U8, 3), (Fmt::U8, 4), (Fmt::U16, 1), (Fmt::U16, 4), (Fmt::F32, 3)]);
        c.depth = if c.fmt == Fmt::U16 { 12 } else { 0 };
        (c.spad, c.dpad) = (0, 0);
        let area = (1usize << r.pick(&[31, 32])) / c.ch + r.below(1 << 20);
        match c.x {
            1 => {
                // nearest neighbour out of it
                c.filter = filt::NEAREST;
                c.sw = r.range(3000, 300_000);
                c.sh = area / c.sw + 1;
                c.dw = r.range(1, 40);
                c.dh = r.range(1, 40);
            }
            2 => {
                // averaged down
                (c.fmt, c.ch) = (Fmt::U8, r.pick(&[1, 2, 4]));
                c.filter = r.pick(&[6, 1, 0, 2]);
                c.sw = r.range(30_000, 60_000);
                c.sh = (1usize << 31) / c.ch / c.sw + 1 + r.below(40);
                c.dw = r.range(2, 20);
                c.dh = r.range(12, 30);
            }
            _ => {
                // grown into it
                (c.fmt, c.ch) = (Fmt::U8, r.pick(&[1, 3, 4]));
                c.filter = filt::NEAREST;
                c.dw = r.range(3000, 300_000);
                c.dh = (1usize << 31) / c.ch / c.dw + 1;
                c.sw = r.range(1, 40);
                c.sh = r.range(1, 40);
            }
        }
    }
    c
}
/// How many of the requests are vast (all of one worker, lest several take gigabytes at a time).
const VAST: usize = 12;

/// An image of billions of samples, which are zero except in the last rows of the source.
fn vast<T: Px, const N: usize>(c: &Case, o: &mut Obs) -> R
where
    Api: Call<T, N>,
{
    drive::note(c);
    let (mut sa, mut da) = (guard::Arena::empty(), guard::Arena::empty());
    let es = std::mem::size_of::<T>();
    let (sn, dn) = (c.sw * c.sh * N, c.dw * c.dh * N);
    let sp = sa.place(sn * es, c.sfront);
    let dp = da.place(dn * es, c.dfront);
    let s: &mut [T] = unsafe { std::slice::from_raw_parts_mut(sp.ptr as *mut T, sn) };
    let d: &mut [T] = unsafe { std::slice::from_raw_parts_mut(dp.ptr as *mut T, dn) };
    let one = T::of(if c.fmt == Fmt::F32 { 0.5 } else { 77.0 });
    // the part of the source that the last row of the destination comes from, with room for the
    // neighbours of the window
    let first = if c.x == 2 { c.sh - (c.sh / c.dh * 4).min(c.sh) } else { (c.dh - 1) * c.sh / c.dh };
    s[first * c.sw * N..].fill(one);
    let depth = if c.fmt == Fmt::U16 { c.depth } else { 0 };
    let a = ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(&*s), channels: N, width: c.sw, height: c.sh, stride: c.sw * N, bit_depth: depth };
    let mut b = ImageStoreMut::<T, N> { buffer: BufferStore::Borrowed(d), channels: N, width: c.dw, height: c.dh, stride: c.dw * N, bit_depth: depth };
    cpu::set(c.cpu);
    let sc = scaler(c);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let sc: &Scaler = unsafe { &*(&sc as *const Scaler) };
        let a: &ImageStore<T, N> = unsafe { &*(&a as *const _) };
        let b: &mut ImageStoreMut<T, N> = unsafe { &mut *(&mut b as *mut _) };
        Api::call(sc, a, b, false)
    }));
    cpu::set(usize::MAX);
    let r = match r {
        Err(_) => Err(format!("panicked: {}", PANIC_MSG.lock().unwrap())),
        Ok(Err(e)) => Err(format!("refused with error code {} ({e})", e.code())),
        Ok(Ok(())) => {
            let d: &[T] = unsafe { std::slice::from_raw_parts(dp.ptr as *const T, dn) };
            let row = c.dw * N;
            // the last row, and one far from all that is not zero
            let z = T::of(0.0);
            if !d[(c.dh - 1) * row..].iter().all(|v| v.to() == one.to()) {
                Err("the last row is not that of the end of the source".to_string())
            } else if first > 0 && !d[..row].iter().all(|v| v.to() == z.to()) {
                Err("the first row is not that of the beginning of the source".to_string())
            } else {
                Ok(())
            }
        }
    };
    let ok = sp.canary_ok() && dp.canary_ok();
    sa.release();
    da.release();
    r.map_err(|e| format!("{}: {}x{} -> {}x{}: {e}", c.class(), c.sw, c.sh, c.dw, c.dh))?;
    if !ok {
        return Err(format!("{}: bytes outside an image buffer were overwritten", c.class()));
    }
    o.add("images of more than 2^31 samples", 1.0);
    o.max("most samples in an image", sn.max(dn) as f64);
    o.evals += 1;
    o.sig_case(c);
    Ok(())
}

fn check02(c: &Case, o: &mut Obs) -> R {
    if c.x != 0 {
        return match (c.fmt, c.ch) {
            (Fmt::U8, 1) => vast::<u8, 1>(c, o),
            (Fmt::U8, 2) => vast::<u8, 2>(c, o),
            (Fmt::U8, 3) => vast::<u8, 3>(c, o),
            (Fmt::U8, _) => vast::<u8, 4>(c, o),
            (Fmt::U16, 1) => vast::<u16, 1>(c, o),
            (Fmt::U16, _) => vast::<u16, 4>(c, o),
            _ => vast::<f32, 3>(c, o),
        };
    }
    let img = picture(c);
    let t = std::time::Instant::now();
    let r = exec(c, &img);
    o.max("longest call in seconds", t.elapsed().as_secs_f64());
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    let ratio = (c.sw as f64 / c.dw as f64).max(c.dw as f64 / c.sw as f64).max(c.sh as f64 / c.dh as f64).max(c.dh as f64 / c.sh as f64);
    o.max("largest ratio of sides", ratio);
    o.evals += 1;
    o.sig_case(c);
    Ok(())
}
pub const C02: Prop = Prop {
    id: "C02", gen: gen02, check: check02, quick: 16000, thorough: 250000, serial: false, per_model: false,
    rule: "One case is one well-formed request, many with one-pixel sides and side ratios up to thousands, a few with more than 2^31 samples; it must return success, without panic, signal or (in the checked build) overflow or violated unsafe precondition, and within a minute. Distinct: differing in format, entry point, filter, sizes, strategy, threads, processor or picture kind.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C05

fn gen05(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    if r.chance(0.08) {
        gen::color(r, &mut c);
    }
    c.cpu = usize::MAX;
    c.sw = r.range(2, 60);
    c.sh = r.range(2, 60);
    c.dw = r.range(2, 60);
    c.dh = r.range(2, 60);
    if r.chance(0.25) {
        c.dw = c.sw;
    } else if r.chance(0.25) {
        c.dh = c.sh;
    }
    c.spad = if r.chance(0.3) { r.below(8) * if c.fmt.packed() { 4 } else { 1 } } else { 0 };
    c.dpad = if r.chance(0.3) { r.below(8) * if c.fmt.packed() { 4 } else { 1 } } else { 0 };
    c.threads = r.pick(&[0, -1, 2, 3, 4, 6]);
    if r.chance(0.2) {
        c.filter = filt::NEAREST;
    }
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.5);
    c.alpha = if c.premul { r.range(2, 6) as u32 } else { 0 };
    // how many callers, and whether they want different things of the same kernels
    c.x = r.range(2, 4) as u64 | if c.kind == Kind::Plain && r.chance(0.5) { 256 } else { 0 };
    // as the first calls of a process, which find nothing prepared
    if r.chance(0.4) {
        c.x |= 512;
        c.cpu = gen::pick_cpu(r);
    }
    // as tasks of a work-stealing pool of the caller's: a worker that waits for the library's
    // threads begins another task, so that calls interleave within one thread
    if r.chance(0.25) {
        c.x |= 1024;
    }
    c
}

/// What caller `k` asks for.
fn caller(c: &Case, k: usize) -> Case {
    let mut d = c.clone();
    if c.x & 256 == 0 || k == 0 {
        return d;
    }
    let mut r = Rng::new(c.seed ^ k as u64);
    if r.chance(0.7) {
        d.filter = r.below(49) as u32;
    }
    d.speed = r.chance(0.5);
    d.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.5);
    d.threads = r.pick(&[0, -1, 2, 3]);
    if c.fmt == Fmt::U16 {
        d.depth = r.range(c.depth, 16);
    }
    d.seed ^= (k as u64) << 17;
    d
}

/// destination size of caller `k`
fn dsize(c: &Case, k: usize) -> (usize, usize) {
    match (k, c.seed >> 40 & 1) {
        (1, _) | (3, 0) => (c.dw, c.dh + k),
        (2, 1) => (c.dw + 1, c.dh),
        (3, 1) => (c.dh, c.dw),
        _ => (c.dw, c.dh),
    }
}

struct Shared(&'static dyn Scaling);
unsafe impl Sync for Shared {}

fn concurrently<T: Px, const N: usize>(c: &Case, img: &[f64]) -> Result<u64, String>
where
    Api: Call<T, N>,
{
    let st = c.sw * N + c.spad;
    let mut buf = vec![T::default(); st * c.sh];
    for y in 0..c.sh {
        for x in 0..c.sw * N {
            buf[y * st + x] = T::of(img[y * c.sw * N + x]);
        }
    }
    let depth = if c.fmt == Fmt::U16 { c.depth } else { 0 };
    let src = ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(&buf), channels: N, width: c.sw, height: c.sh, stride: st, bit_depth: depth };
    let mine: Vec<(Scaler, ImageStore<T, N>, Case)> = (0..(c.x & 255) as usize)
        .map(|k| {
            let d = caller(c, k);
            let depth = if c.fmt == Fmt::U16 { d.depth } else { 0 };
            let s = ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(&buf), channels: N, width: c.sw, height: c.sh, stride: st, bit_depth: depth };
            (scaler(&d), s, d)
        })
        .collect();
    let mixed = c.x & 256 != 0;
    let sc = scaler(c);
    let cb = color(c);
    let cs = cb.as_ref().map(|b| Shared(unsafe { &*(b.as_ref() as *const dyn Scaling) }));
    let (src, sc, cs) = (&src, &sc, &cs);
    let one = |k: usize| -> Result<Vec<u64>, String> {
        let (w, h) = dsize(c, k);
        let ds = w * N + c.dpad;
        let depth = if mixed { mine[k].1.bit_depth } else { depth };
        let mut d = ImageStoreMut::<T, N> { buffer: BufferStore::Owned(vec![T::default(); ds * h]), channels: N, width: w, height: h, stride: ds, bit_depth: depth };
        let (sc, src) = if mixed { (&mine[k].0, &mine[k].1) } else { (sc, src) };
        let r = match cs {
            Some(s) => unsafe { by_color::<T, N>(s, src, &mut d, c.premul) },
            None => {
                // the borrow of the scaler lasts as long as the images'
                let sc: &Scaler = unsafe { &*(sc as *const Scaler) };
                let src: &ImageStore<T, N> = unsafe { &*(src as *const ImageStore<T, N>) };
                Api::call(sc, src, &mut d, if mixed { mine[k].2.premul } else { c.premul })
            }
        };
        r.map_err(|e| format!("refused: {e}"))?;
        Ok(d.buffer.borrow().iter().map(|v| v.to().to_bits()).collect())
    };
    many(c, &one)
}

unsafe fn by_color<T: Px, const N: usize>(s: &Shared, a: &ImageStore<T, N>, b: &mut ImageStoreMut<T, N>, premul: bool) -> Result<(), PicScaleError> {
    let s = s.0;
    if N == 3 {
        s.resize_rgb(&*(a as *const _ as *const ImageStore<u8, 3>), &mut *(b as *mut _ as *mut ImageStoreMut<u8, 3>))
    } else {
        s.resize_rgba(&*(a as *const _ as *const ImageStore<u8, 4>), &mut *(b as *mut _ as *mut ImageStoreMut<u8, 4>), premul)
    }
}

fn concurrently_packed(c: &Case, img: &[f64]) -> Result<u64, String> {
    let st = c.sw * 4 + c.spad;
    let mut buf = vec![0u8; st * c.sh];
    for y in 0..c.sh {
        for x in 0..c.sw {
            let w = pack(c.fmt, &img[(y * c.sw + x) * 4..][..4]);
            let w = if c.net { w.swap_bytes() } else { w };
            buf[y * st + x * 4..][..4].copy_from_slice(&w.to_le_bytes());
        }
    }
    let all: Vec<Scaler> = (0..(c.x & 255) as usize).map(|k| scaler(&caller(c, k))).collect();
    let same = scaler(c);
    let one = |k: usize| -> Result<Vec<u64>, String> {
        let sc = if c.x & 256 != 0 { &all[k] } else { &same };
        let (w, h) = dsize(c, k);
        let ds = w * 4 + c.dpad;
        let mut d = vec![0u8; ds * h];
        let ord = if c.net { Ar30ByteOrder::Network } else { Ar30ByteOrder::Host };
        let (a, b) = (ImageSize::new(c.sw, c.sh), ImageSize::new(w, h));
        if c.fmt == Fmt::Ar30 {
            sc.resize_ar30(&buf, st, a, &mut d, ds, b, ord)
        } else {
            sc.resize_ra30(&buf, st, a, &mut d, ds, b, ord)
        }
        .map_err(|e| format!("refused: {e}"))?;
        Ok(d.iter().map(|&v| v as u64).collect())
    };
    many(c, &one)
}

fn many(c: &Case, one: &(dyn Fn(usize) -> Result<Vec<u64>, String> + Sync)) -> Result<u64, String> {
    let n = (c.x & 255) as usize;
    let rounds = 2;
    let go = std::sync::Barrier::new(n);
    // a barrier lets its threads go one by one; what happens only in the first microseconds of a
    // process needs them closer together, or a known distance apart
    let ready = std::sync::atomic::AtomicUsize::new(0);
    let skew = if c.seed >> 33 & 1 == 0 { 0 } else { [1u64, 5, 20, 60, 200][(c.seed >> 34) as usize % 5] };
    let start = |k: usize| {
        go.wait();
        ready.fetch_add(1, SeqCst);
        let t = std::time::Instant::now();
        while ready.load(SeqCst) < n && t.elapsed().as_micros() < 2000 {
            std::hint::spin_loop();
        }
        let t = std::time::Instant::now();
        while t.elapsed().as_micros() < (k as u64 * skew) as u128 {
            std::hint::spin_loop();
        }
    };
    type Got = Result<Vec<(usize, Vec<u64>)>, String>;
    let together = || -> Vec<Got> {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let start = &start;
                    s.spawn(move || -> Got {
                        start(k);
                        (0..rounds).map(|r| (k + r) % n).map(|me| Ok((me, one(me)?))).collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("a caller panicked: {}", PANIC_MSG.lock().unwrap())))).collect()
        })
    };
    let as_tasks = || -> Vec<Got> {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + (c.seed >> 35) as usize % 3).build().expect("a pool");
        let out: std::sync::Mutex<Vec<Got>> = std::sync::Mutex::new(vec![]);
        pool.scope(|s| {
            for k in 0..n * 3 {
                let out = &out;
                s.spawn(move |_| {
                    let me = k % n;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(me)))
                        .unwrap_or_else(|_| Err(format!("a caller panicked: {}", PANIC_MSG.lock().unwrap())));
                    out.lock().unwrap().push(r.map(|v| vec![(me, v)]));
                });
            }
        });
        out.into_inner().unwrap()
    };
    let together = || if c.x & 1024 != 0 { as_tasks() } else { together() };
    let alone = || (0..n).map(one).collect::<Result<Vec<_>, _>>();
    // the calls made together come first half of the time
    let (res, alone) = if c.x & 512 != 0 {
        let r = together();
        (r, alone()?)
    } else {
        let a = alone()?;
        (together(), a)
    };
    for r in res {
        for (me, got) in r? {
            if let Some(i) = (0..got.len()).find(|&i| got[i] != alone[me][i]) {
                return Err(format!("element {i} differs from the result of the same call made alone"));
            }
        }
    }
    Ok((n * if c.x & 1024 != 0 { 3 } else { rounds }) as u64)
}

/// The case in a process of its own.
fn first05(c: &Case) -> (u8, Vec<u8>) {
    cpu::set(c.cpu);
    match calls05(c) {
        Ok(n) => (0, n.to_le_bytes().to_vec()),
        Err(e) => (1, e.into_bytes()),
    }
}
fn start05() {
    crate::fresh::start_with(first05)
}

fn calls05(c: &Case) -> Result<u64, String> {
    let img = picture(c);
    macro_rules! n {
        ($t:ty) => {
            match c.ch {
                1 => concurrently::<$t, 1>(c, &img),
                2 => concurrently::<$t, 2>(c, &img),
                3 => concurrently::<$t, 3>(c, &img),
                _ => concurrently::<$t, 4>(c, &img),
            }
        };
    }
    match c.fmt {
        Fmt::U8 => n!(u8),
        Fmt::U16 => n!(u16),
        Fmt::F32 => n!(f32),
        Fmt::F16 => n!(Half),
        _ => concurrently_packed(c, &img),
    }
}
fn check05(c: &Case, o: &mut Obs) -> R {
    drive::note(c);
    let r = if c.x & 512 != 0 {
        match crate::fresh::ask_raw(c) {
            (0, n) => Ok(u64::from_le_bytes(n[..8].try_into().unwrap())),
            (_, e) => Err(format!("as the first calls of a process: {}", String::from_utf8_lossy(&e))),
        }
    } else {
        calls05(c)
    };
    let calls = r.map_err(|e| format!("{}: {e}", c.class()))?;
    o.evals += calls;
    o.add("concurrent calls equal to the same call alone", calls as f64);
    if c.threads != 0 {
        o.add("of them with worker threads of their own", calls as f64);
    }
    if c.x & 512 != 0 {
        o.add("of them the first of a process", calls as f64);
    }
    if c.x & 1024 != 0 {
        o.add("of them made by tasks of a work-stealing pool", calls as f64);
    }
    o.sig_case(c);
    Ok(())
}
pub const C05: Prop = Prop {
    id: "C05", gen: gen05, check: check05, quick: 3000, thorough: 40000, serial: false, per_model: false,
    rule: "One case is one source used by two to four threads at once, with one scaler or with scalers of their own that differ in filter, strategy, depth and threads, each call splitting its work by the thread policy and made by threads of their own or by tasks of a work-stealing pool (a quarter of the cases), in a ThreadSanitizer build (every access of every thread checked) and in the release build; results compared with the same calls made alone, before or (in a freshly forked process that has not used the library) after. Distinct: differing in format, filter, sizes, policy or strategy.",
    init: Some(start05), fini: None,
};

// ------------------------------------------------------------------ C10

const STEPPED_SHARE: f64 = 0.08;

fn gen10(r: &mut Rng, i: usize, t: Tier) -> Case {
    // (a library that asks for the features once and remembers is judged by the same processor)
    let m = gen::cpu_of(i);
    // x = 1: under tripwires, whatever the request; otherwise stepped, small and on one thread
    if !r.chance(STEPPED_SHARE) {
        let k = r.next() as usize >> 1;
        let mut c = anything(r, k, t);
        c.cpu = m;
        c.x = 1;
        return c;
    }
    let k = r.next() as usize >> 1;
    let mut c = gen::base(r, k, t, gen::ALL);
    c.cpu = m;
    c.threads = 0;
    // cheap filters of several supports; a few taps to many
    c.filter = match r.below(10) {
        0..=2 => 0,
        3 => 2,
        4..=5 => 9,
        6 => 4,
        7 => filt::NEAREST,
        _ => r.below(49) as u32,
    };
    let s = |r: &mut Rng| match r.below(8) {
        0 => r.range(1, 3),
        1..=3 => r.range(1, 12),
        4..=6 => r.range(5, 40),
        _ => r.range(30, 80),
    };
    match r.below(5) {
        0 => {
            c.sw = s(r);
            c.dw = c.sw;
            c.sh = r.range(1, 14);
            c.dh = r.range(1, 10);
        }
        1 => {
            c.sw = s(r);
            c.dw = s(r);
            c.sh = r.range(1, 9);
            c.dh = c.sh;
        }
        2 => {
            c.sw = r.range(60, 400);
            c.dw = r.range(1, 5);
            c.sh = r.range(1, 5);
            c.dh = c.sh;
        }
        _ => {
            c.sw = s(r);
            c.dw = s(r);
            c.sh = r.range(1, 12);
            c.dh = r.range(1, 12);
        }
    }
    c.premul = c.ch == 4 && !c.fmt.packed() && r.chance(0.6);
    c.alpha = if c.premul { r.range(1, 6) as u32 } else { 0 };
    c
}
fn check10(c: &Case, o: &mut Obs) -> R {
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    {
        if c.cpu == usize::MAX {
            return Err("the feature masking of this build does not work".into());
        }
        let img = picture(c);
        let has = crate::isa::mask_of(cpu::model(c.cpu).has) | 1 << 63;
        if c.x == 1 {
            return wired(c, &img, has, o);
        }
        STEP.store(has, SeqCst);
        let r = exec(c, &img);
        STEP.store(0, SeqCst);
        if let Some(f) = r.fault() {
            return Err(format!("{}: {f}", c.class()));
        }
        let s = STEPPED.lock().unwrap().take().ok_or("the call was not stepped")?;
        if s.own < 20 {
            return Err(format!("single stepping does not work here: {} steps", s.own));
        }
        o.evals += s.own;
        o.add("instructions of the library watched", s.own as f64);
        o.add(&format!("instructions watched as {}", cpu::name(c.cpu)), s.own as f64);
        o.max("distinct instruction addresses per worker", crate::isa::DISTINCT.load(Relaxed) as f64);
        for (i, n) in crate::isa::EXT.iter().enumerate() {
            if s.seen >> i & 1 == 1 {
                o.add(&format!("requests that executed {n}"), 1.0);
            }
        }
        if let Some((rip, need)) = s.bad {
            return Err(format!(
                "{}: on {} an instruction of {} is executed in {}",
                c.class(), cpu::name(c.cpu), crate::isa::names(need), crate::isa::symbol(rip)
            ));
        }
        o.sig_case(c);
        o.sig(&[c.cpu as u64, s.seen]);
    }
    Ok(())
}
/// The call with a breakpoint on every instruction of the library the processor would not know.
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn wired(c: &Case, img: &[f64], has: u64, o: &mut Obs) -> R {
    use crate::isa;
    static TESTED: std::sync::OnceLock<Result<(), String>> = std::sync::OnceLock::new();
    let all = isa::wires();
    TESTED
        .get_or_init(|| {
            if all == 0 {
                return Err("no tripwires: the disassembler or the permission to write to code is missing".into());
            }
            // the wires work: the host itself, when nothing is allowed, runs into one
            let h = Case { kind: Kind::Plain, fmt: Fmt::U8, ch: 3, sw: 40, sh: 40, dw: 23, dh: 21, cpu: usize::MAX, x: 0, ..Case::default() };
            // in a process of its own: nothing may be remembered of the host's features
            unsafe {
                let kid = libc::fork();
                if kid == 0 {
                    isa::arm(0);
                    exec(&h, &picture(&h));
                    libc::_exit(if isa::hit().is_some() { 0 } else { 1 });
                }
                let mut st = 0;
                libc::waitpid(kid, &mut st, 0);
                match st {
                    0 => Ok(()),
                    _ => Err(format!("the tripwires do not trip (status {st:#x})")),
                }
            }
        })
        .clone()?;
    let n = isa::arm(has);
    let r = exec(c, img);
    let bad = isa::hit();
    if let Some((rip, need)) = bad {
        return Err(format!("{}: on {} an instruction of {} is executed in {}", c.class(), cpu::name(c.cpu), isa::names(need), isa::symbol(rip)));
    }
    if let Some(f) = r.fault() {
        return Err(format!("{}: {f}", c.class()));
    }
    o.evals += 1;
    o.add("requests under tripwires", 1.0);
    o.add(&format!("requests under tripwires as {}", cpu::name(c.cpu)), 1.0);
    o.max("instructions of the library that need an extension", all as f64);
    o.max("tripwires armed", n as f64);
    o.sig_case(c);
    Ok(())
}
pub const C10: Prop = Prop {
    id: "C10", gen: gen10, check: check10, quick: 2600, thorough: 30000, serial: false, per_model: true,
    rule: "One case is one request under the feature set of one processor family. About one in twelve is executed instruction by instruction, each decoded before it runs and its extension looked up in the reported set; the others run at full speed, on any number of threads, with a breakpoint on every instruction of the library that needs more than the set. Evaluations count instructions stepped and requests under breakpoints. Distinct: differing in processor, format, filter, sizes or strategy, plus the distinct sets of extensions seen.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C24

fn gen24(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = anything(r, i, t);
    // the colour library keeps the process-wide pool of rayon: only one shard meets it
    while i % 8 != 7 && !matches!(c.kind, Kind::Plain | Kind::Generic) {
        c = anything(r, i, t);
    }
    c.threads = match r.below(6) {
        0 => -1,
        1 => 1,
        2 => r.range(2, 12) as i64,
        _ => 0,
    };
    if c.kind == Kind::Generic {
        c.threads = -((c.threads != 0) as i64);
    }
    if c.threads == -1 && r.chance(0.4) {
        // enough area for several workers
        c.dw = r.range(300, 520);
        c.dh = r.range(300, 520);
        c.sw = c.sw.min(40);
        c.sh = c.sh.min(40);
        c.kind = Kind::Plain;
    }
    // 0: a good request; otherwise a refused one
    c.x = if r.chance(0.15) { 1 + r.below(3) as u64 } else { 0 };
    c
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}
/// Threads that stay: this one, and the process-wide pool once the colour library has started it.
static STAY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
/// Waits until the threads of dropped pools are gone.
fn settle() -> usize {
    let t = std::time::Instant::now();
    loop {
        let n = tasks();
        if n <= STAY.load(SeqCst) || t.elapsed().as_secs_f64() > 10.0 {
            return n;
        }
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
}
fn refused(c: &Case) -> bool {
    let (s, mut d) = (vec![0u8; 48], vec![0u8; 48]);
    let sc = scaler(c);
    let a = ImageStore::<u8, 3> { buffer: std::borrow::Cow::Borrowed(&s), channels: 3, width: 4, height: 4, stride: 12, bit_depth: 0 };
    let (w, h, st) = match c.x {
        1 => (2, 8, 5),
        2 => (8, 2, 25),
        _ => (0, 4, 12),
    };
    let mut b = ImageStoreMut::<u8, 3> { buffer: BufferStore::Borrowed(&mut d), channels: 3, width: w, height: h, stride: st, bit_depth: 0 };
    sc.resize_rgb(&a, &mut b).is_err()
}

fn check24(c: &Case, o: &mut Obs) -> R {
    let img = picture(c);
    let size = ImageSize::new(c.dw, c.dh);
    o.max("largest growth of live bytes over repeated calls", f64::MIN);
    guard::ACCOUNT.store(true, SeqCst);
    // the images of this process and what the library keeps for good are made first
    let mut call = |count: bool| -> Result<(u64, i64, u64), String> {
        let s0 = STARTED.load(SeqCst);
        let r = if c.x == 0 {
            MEASURE.store(true, SeqCst);
            let r = exec(c, &img);
            MEASURE.store(false, SeqCst);
            r.fault()
        } else {
            drive::note(c);
            if refused(c) { None } else { Some("an invalid request was accepted".into()) }
        };
        if count {
            o.evals += 1;
        }
        match r {
            Some(f) => Err(format!("{}: {f}", c.class())),
            None => Ok((STARTED.load(SeqCst) - s0, PEAKED.load(SeqCst), guard::LARGEST.load(SeqCst))),
        }
    };
    let color = !matches!(c.kind, Kind::Plain | Kind::Generic);
    if color && c.x == 0 && STAY.load(SeqCst) == 1 {
        let mut d = c.clone();
        d.threads = 0;
        let r = exec(&d, &img);
        if let Some(f) = r.fault() {
            return Err(format!("{}: {f}", d.class()));
        }
        std::thread::sleep(std::time::Duration::from_millis(30));
        STAY.store(tasks(), SeqCst);
    }
    let stay = STAY.load(SeqCst);
    call(false)?;
    settle();
    call(false)?;
    let n = settle();
    if n > stay {
        return Err(format!("{}: {} threads are still there ten seconds after the call", c.class(), n - stay));
    }
    let rounds = if c.threads == 0 { 3 } else { 6 };
    let mut started = 0;
    let mut peak = 0;
    // reserved now: the monitor's own blocks must not count
    let mut live = Vec::with_capacity(16);
    let mut diff: Vec<i64> = Vec::with_capacity(16);
    live.push(guard::LIVE.load(SeqCst));
    let (mut a0, mut f0) = (guard::ALLOCS.load(SeqCst), guard::FREES.load(SeqCst));
    for _ in 0..rounds {
        let (s, p, _) = call(true)?;
        started = started.max(s);
        peak = peak.max(p);
        let n = settle();
        if n > stay {
            return Err(format!("{}: {} threads are still there ten seconds after the call", c.class(), n - stay));
        }
        live.push(guard::LIVE.load(SeqCst));
        let (a, f) = (guard::ALLOCS.load(SeqCst), guard::FREES.load(SeqCst));
        diff.push((a - a0) as i64 - (f - f0) as i64);
        a0 = a;
        f0 = f;
    }
    // the work-stealing queues of rayon may free a little later (much later next to the
    // process-wide pool)
    let mut late = false;
    if (c.threads != 0) != color && (1..=rounds).all(|k| live[k] - live[k - 1] >= 64) {
        // they free in batches, later on a busy machine: the least that is alive over ten calls
        // must keep growing too
        let mut least = [i64::MAX; 9];
        for m in least.iter_mut() {
            for _ in 0..10 {
                call(false)?;
                settle();
                *m = (*m).min(guard::LIVE.load(SeqCst));
            }
        }
        if least.windows(2).all(|w| w[1] - w[0] >= 640) {
            return Err(format!("{}: live memory grows with every call: {live:?} bytes, then at least {least:?} over ten calls each", c.class()));
        }
        late = true;
    }
    let grown = live[rounds] - live[0];
    o.max("largest growth of live bytes over repeated calls", grown as f64);
    // (idle workers of the process-wide pool may still release what was left to them)
    let (extra, blocks) = if stay > 1 { (grown.max(0), diff.iter().sum::<i64>().max(0)) } else { (grown, diff.iter().sum()) };
    if c.threads == 0 && !color && (extra != 0 || blocks != 0) {
        return Err(format!(
            "{}: {grown} bytes and {} blocks more are alive after {rounds} more calls",
            c.class(), diff.iter().sum::<i64>()
        ));
    }
    if late {
        o.add("late releases waited for", 1.0);
    }
    let want = match c.threads {
        0 => 0,
        -1 => ThreadingPolicy::Adaptive.thread_count(size),
        n => n as usize,
    };
    o.max("most threads started by a call", started as f64);
    o.add("threads observed started and ended", started as f64 * rounds as f64);
    if started as usize > want {
        return Err(format!("{}: {started} threads were started where the policy states {want}", c.class()));
    }
    if c.x == 0 {
        let es = if color { 4 } else { c.fmt.bytes() };
        let n = c.planes();
        let px = if c.fmt.packed() { 4 } else { n * es };
        let (src, dst, mid) = (c.sw * c.sh * px, c.dw * c.dh * px, c.sw * c.dh * px);
        let taps = |i: usize, o_: usize| -> usize {
            if i == o_ || c.filter == filt::NEAREST { 0 } else { o_ * ((filt::taps(c.filter) * (i as f64 / o_ as f64).max(1.0)) as usize + 6) }
        };
        let tables = (taps(c.sw, c.dw) + taps(c.sh, c.dh)) * 4 + (c.dw + c.dh) * 16;
        let bound = 3 * (src + dst + mid) + 4 * tables + 40_000 + want * 24_000;
        o.max("peak of temporary memory as a part of its bound", peak as f64 / bound as f64);
        o.max("peak of temporary bytes", peak as f64);
        if peak as usize > bound {
            return Err(format!("{}: {peak} bytes of temporaries for images of {src} and {dst} bytes and filter tables of {tables}", c.class()));
        }
    }
    guard::ACCOUNT.store(false, SeqCst);
    o.sig_case(c);
    Ok(())
}
pub const C24: Prop = Prop {
    id: "C24", gen: gen24, check: check24, quick: 3500, thorough: 40000, serial: false, per_model: false,
    rule: "One case is one request (or a refused one) repeated until nothing new should be kept, then three to six times with every allocation, release and thread start counted. Distinct: differing in format, entry point, filter, sizes, threads, processor or picture kind.",
    init: None, fini: None,
};
