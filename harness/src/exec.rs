//! Runs one case against the real library, between the memory monitors.
use crate::case::*;
use crate::cpu;
use crate::guard::*;
use pic_scale::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub trait Px: Copy + Clone + Debug + Default + Send + Sync + PartialEq + 'static {
    fn of(v: f64) -> Self;
    fn to(self) -> f64;
}
impl Px for u8 {
    fn of(v: f64) -> u8 {
        v as u8
    }
    fn to(self) -> f64 {
        self as f64
    }
}
impl Px for u16 {
    fn of(v: f64) -> u16 {
        v as u16
    }
    fn to(self) -> f64 {
        self as f64
    }
}
impl Px for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}
/// Half floats, where the library is built with them.
#[cfg(feature = "half")]
pub type Half = f16;
#[cfg(not(feature = "half"))]
pub type Half = f32;
#[cfg(feature = "half")]
impl Px for f16 {
    fn of(v: f64) -> f16 {
        f16::from_bits(f32_to_f16(v as f32))
    }
    fn to(self) -> f64 {
        f16_to_f64(self.to_bits())
    }
}

pub fn f16_to_f64(b: u16) -> f64 {
    let s = if b >> 15 == 1 { -1.0 } else { 1.0 };
    let e = ((b >> 10) & 31) as i32;
    let m = (b & 1023) as f64;
    s * match e {
        0 => m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => (1024.0 + m) * 2f64.powi(e - 25),
    }
}
/// round to nearest even, through exact arithmetic
pub fn f32_to_f16(v: f32) -> u16 {
    let s = if v.is_sign_negative() { 0x8000u16 } else { 0 };
    let a = v.abs() as f64;
    if a.is_nan() {
        return 0x7E00;
    }
    if a >= 65520.0 {
        return s | 0x7C00;
    }
    if a < 2f64.powi(-14) {
        let q = a * 2f64.powi(24);
        return s | round_even(q) as u16;
    }
    let mut e = a.log2().floor() as i32;
    if 2f64.powi(e) > a {
        e -= 1;
    }
    if 2f64.powi(e + 1) <= a {
        e += 1;
    }
    let m = round_even(a * 2f64.powi(10 - e)); // 1024..=2048
    let bits = ((e + 15) as i64) * 1024 + (m as i64 - 1024);
    s | bits as u16
}
fn round_even(q: f64) -> f64 {
    let f = q.floor();
    let d = q - f;
    if d > 0.5 || (d == 0.5 && f % 2.0 == 1.0) {
        f + 1.0
    } else {
        f
    }
}

/// What happened.
pub struct Out {
    pub res: Result<(), usize>,
    pub err: String,
    pub panic: Option<String>,
    /// raw bytes of the image area of the destination, rows joined
    pub raw: Vec<u8>,
    /// padding of the destination as filled before
    pub pad_ok: bool,
    pub canary_ok: bool,
    pub src_ok: bool,
}

impl Out {
    /// Anything that is wrong whatever the property.
    pub fn fault(&self) -> Option<String> {
        if let Some(p) = &self.panic {
            return Some(format!("panicked: {p}"));
        }
        if let Err(e) = self.res {
            return Some(format!("refused with error code {e} ({})", self.err));
        }
        if !self.canary_ok {
            return Some("bytes outside an image buffer were overwritten".into());
        }
        if !self.src_ok {
            return Some("the source image was modified".into());
        }
        None
    }
    pub fn values(&self, c: &Case) -> Vec<f64> {
        decode(c, &self.raw)
    }
}

pub fn decode(c: &Case, raw: &[u8]) -> Vec<f64> {
    match c.fmt {
        Fmt::U8 => raw.iter().map(|&b| b as f64).collect(),
        Fmt::U16 => raw.chunks_exact(2).map(|b| u16::from_le_bytes([b[0], b[1]]) as f64).collect(),
        Fmt::F16 => raw.chunks_exact(2).map(|b| f16_to_f64(u16::from_le_bytes([b[0], b[1]]))).collect(),
        Fmt::F32 => raw.chunks_exact(4).map(|b| f32::from_le_bytes([b[0], b[1], b[2], b[3]]) as f64).collect(),
        Fmt::Ar30 | Fmt::Ra30 => {
            let mut v = Vec::with_capacity(raw.len());
            for b in raw.chunks_exact(4) {
                let w = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                let w = if c.net { w.swap_bytes() } else { w };
                v.extend(unpack(c.fmt, w));
            }
            v
        }
    }
}

/// The packed layouts: AR30 keeps red in the low bits and alpha on top, RA30 keeps alpha lowest
/// and red on top.
pub fn unpack(f: Fmt, w: u32) -> [f64; 4] {
    let x = |s: u32| ((w >> s) & 1023) as f64;
    if f == Fmt::Ar30 {
        [x(0), x(10), x(20), (w >> 30) as f64]
    } else {
        [x(22), x(12), x(2), (w & 3) as f64]
    }
}
pub fn pack(f: Fmt, p: &[f64]) -> u32 {
    let (r, g, b, a) = (p[0] as u32, p[1] as u32, p[2] as u32, p[3] as u32);
    if f == Fmt::Ar30 {
        r | g << 10 | b << 20 | a << 30
    } else {
        r << 22 | g << 12 | b << 2 | a
    }
}

thread_local! {
    static ARENAS: RefCell<(Arena, Arena)> = const { RefCell::new((Arena::empty(), Arena::empty())) };
}
pub static PANIC_MSG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn filter(c: &Case) -> ResamplingFunction {
    ResamplingFunction::from(c.filter)
}
pub fn policy(t: i64) -> ThreadingPolicy {
    match t {
        0 => ThreadingPolicy::Single,
        -1 => ThreadingPolicy::Adaptive,
        n => ThreadingPolicy::Fixed((n - if n >= 1000 { 1000 } else { 0 }) as usize),
    }
}
pub fn strategy(speed: bool) -> WorkloadStrategy {
    if speed {
        WorkloadStrategy::PreferSpeed
    } else {
        WorkloadStrategy::PreferQuality
    }
}
pub fn transfer(t: u32) -> TransferFunction {
    match t {
        0 => TransferFunction::Srgb,
        1 => TransferFunction::Rec709,
        2 => TransferFunction::Gamma2p2,
        3 => TransferFunction::Gamma2p8,
        4 => TransferFunction::Smpte428,
        5 => TransferFunction::Bt1361,
        _ => TransferFunction::Linear,
    }
}
pub fn scaler(c: &Case) -> Scaler {
    let mut s = Scaler::new(filter(c));
    // the settings count, not how they came about
    let h = c.seed >> 17;
    if h & 7 == 1 {
        s.set_workload_strategy(strategy(!c.speed));
        s.set_threading_policy(if c.threads == 0 { ThreadingPolicy::Adaptive } else { ThreadingPolicy::Single });
    }
    if h & 8 == 0 {
        s.set_threading_policy(policy(c.threads));
        s.set_workload_strategy(strategy(c.speed));
    } else {
        // (a new scaler is documented to work on a single thread)
        s.set_workload_strategy(strategy(c.speed));
        if c.threads != 0 || h & 7 == 1 {
            s.set_threading_policy(policy(c.threads));
        }
    }
    s
}
/// Scalers used for many calls, by what is fixed when they are made.
#[derive(Default)]
pub struct Kept {
    plain: std::collections::HashMap<u32, Box<Scaler>>,
    colored: std::collections::HashMap<(u32, u32, u32, u32), Box<dyn Scaling>>,
}
thread_local! {
    /// While set, requests go to scalers used before instead of new ones.
    pub static KEPT: RefCell<Option<Kept>> = const { RefCell::new(None) };
}
fn on_scaler<R>(c: &Case, f: impl FnOnce(&Scaler) -> R) -> R {
    let kept = KEPT.with(|k| {
        k.borrow_mut().as_mut().map(|k| {
            let s = k.plain.entry(c.filter).or_insert_with(|| Box::new(Scaler::new(filter(c))));
            s.set_threading_policy(policy(c.threads));
            s.set_workload_strategy(strategy(c.speed));
            &**s as *const Scaler
        })
    });
    match kept {
        // the scaler lives until KEPT is set again
        Some(s) => f(unsafe { &*s }),
        None => f(&scaler(c)),
    }
}
fn on_color<R>(c: &Case, f: impl FnOnce(&dyn Scaling) -> R) -> R {
    let kept = KEPT.with(|k| {
        k.borrow_mut().as_mut().map(|k| {
            let s = k.colored.entry((c.kind as u32, c.filter, c.tf, luminance(c) as u32)).or_insert_with(|| color(c).unwrap());
            s.set_threading_policy(policy(c.threads));
            &**s as *const dyn Scaling
        })
    });
    match kept {
        Some(s) => f(unsafe { &*s }),
        None => f(color(c).unwrap().as_ref()),
    }
}
/// Display luminance of the Jzazbz scaler.
pub fn luminance(c: &Case) -> f32 {
    [203f32, 203., 100., 1000.][(c.seed >> 23 & 3) as usize]
}

pub trait Call<T: Px, const N: usize> {
    fn call<'a>(s: &'a Scaler, a: &ImageStore<'a, T, N>, b: &mut ImageStoreMut<'a, T, N>, premul: bool) -> Result<(), PicScaleError>;
    fn generic<'a>(a: &ImageStore<'a, T, N>, b: &mut ImageStoreMut<'a, T, N>, o: ScalingOptions) -> Option<Result<(), PicScaleError>>;
}
pub struct Api;
macro_rules! api {
    ($t:ty, $n:expr, $m:ident $(, $p:ident)?; $g:tt) => {
        impl Call<$t, $n> for Api {
            #[allow(unused_variables)]
            fn call<'a>(s: &'a Scaler, a: &ImageStore<'a, $t, $n>, b: &mut ImageStoreMut<'a, $t, $n>, premul: bool) -> Result<(), PicScaleError> {
                s.$m(a, b $(, { let $p = premul; $p })?)
            }
            #[allow(unused_variables)]
            fn generic<'a>(a: &ImageStore<'a, $t, $n>, b: &mut ImageStoreMut<'a, $t, $n>, o: ScalingOptions) -> Option<Result<(), PicScaleError>> {
                api!(@g $g a b o)
            }
        }
    };
    (@g yes $a:ident $b:ident $o:ident) => { Some(ImageStoreScaling::scale($a, $b, $o)) };
}
api!(u8, 1, resize_plane; yes);
api!(u8, 2, resize_cbcr8; yes);
api!(u8, 3, resize_rgb; yes);
api!(u8, 4, resize_rgba, p; yes);
api!(u16, 1, resize_plane_u16; yes);
api!(u16, 2, resize_cbcr_u16; yes);
api!(u16, 3, resize_rgb_u16; yes);
api!(u16, 4, resize_rgba_u16, p; yes);
api!(f32, 1, resize_plane_f32; yes);
api!(f32, 2, resize_cbcr_f32; yes);
api!(f32, 3, resize_rgb_f32; yes);
api!(f32, 4, resize_rgba_f32, p; yes);
#[cfg(feature = "half")]
api!(f16, 1, resize_plane_f16; yes);
#[cfg(feature = "half")]
api!(f16, 2, resize_cbcr_f16; yes);
#[cfg(feature = "half")]
api!(f16, 3, resize_rgb_f16; yes);
#[cfg(feature = "half")]
api!(f16, 4, resize_rgba_f16, p; yes);

pub fn color(c: &Case) -> Option<Box<dyn Scaling>> {
    let f = filter(c);
    let t = transfer(c.tf);
    let mut b: Box<dyn Scaling> = match c.kind {
        Kind::Lab => Box::new(LabScaler::new(f)),
        Kind::Luv => Box::new(LuvScaler::new(f)),
        Kind::Lch => Box::new(LChScaler::new(f)),
        Kind::Xyz => Box::new(XYZScaler::new(f)),
        Kind::Oklab => Box::new(OklabScaler::new(f, t)),
        Kind::Jzazbz => Box::new(JzazbzScaler::new(f, luminance(c), t)),
        Kind::Sigmoid => Box::new(SigmoidalScaler::new(f)),
        Kind::Linear if c.tf == 0 && c.seed >> 18 & 1 == 0 => Box::new(LinearScaler::new(f)),
        Kind::LinearApprox if c.tf == 0 && c.seed >> 18 & 1 == 0 => Box::new(LinearApproxScaler::new(f)),
        Kind::Linear => Box::new(LinearScaler::new_with_transfer(f, t)),
        Kind::LinearApprox => Box::new(LinearApproxScaler::new_with_transfer(f, t)),
        _ => return None,
    };
    if c.threads != 0 || c.seed >> 17 & 1 == 0 {
        b.set_threading_policy(policy(c.threads));
    }
    Some(b)
}

/// Byte `k` of the padding of destination row `y` before the call: no two rows have the same.
pub fn pad_byte(dfill: u8, y: usize, k: usize) -> u8 {
    dfill.wrapping_add((y as u8).wrapping_mul(97)).wrapping_add((k as u8).wrapping_mul(31)).wrapping_add(17)
}
/// Of the padding of rows so long that an image takes hundreds of megabytes, this much is used.
const LONG_PAD: usize = 256;
/// Bytes of a row of `row` bytes, of which `img` are pixels, that are written and looked at.
fn used(row: usize, img: usize, rows: usize) -> usize {
    if row * rows > 1 << 26 {
        row.min(img + LONG_PAD)
    } else {
        row
    }
}

struct Run {
    res: Result<Result<(), (usize, String)>, String>,
    raw: Vec<u8>,
    pad_ok: bool,
    canary_ok: bool,
    src_ok: bool,
}

/// Calls `f` with the source (rows of `srow` bytes, of which `srcb` has the used part) and the
/// destination (rows of `drow` bytes with `dimg` bytes of pixels) in guarded places.
fn guarded(srcb: &[u8], srow: usize, drow: usize, dimg: usize, c: &Case, f: impl FnOnce(*const u8, *mut u8) -> Result<(), PicScaleError>) -> Run {
    ARENAS.with(|ar| {
        let mut ar = ar.borrow_mut();
        let mut large = (Arena::empty(), Arena::empty());
        let part = srcb.len() / c.sh.max(1);
        let (slen, dlen) = (srow * c.sh, drow * c.dh);
        let long = part != srow || used(drow, dimg, c.dh) != drow;
        let (sa, da) = if long { (&mut large.0, &mut large.1) } else { let (a, b) = &mut *ar; (a, b) };
        let sp = sa.place(slen, c.sfront);
        let dp = da.place(dlen, c.dfront);
        let src = |y: usize| unsafe { std::slice::from_raw_parts_mut(sp.ptr.add(y * srow), part) };
        let dused = used(drow, dimg, c.dh);
        let dst = |y: usize| unsafe { std::slice::from_raw_parts_mut(dp.ptr.add(y * drow), dused) };
        if part > 0 {
            for (y, row) in srcb.chunks_exact(part).enumerate() {
                src(y).copy_from_slice(row);
            }
        }
        for y in 0..c.dh {
            let (img, pad) = dst(y).split_at_mut(dimg.min(dused));
            img.fill(c.dfill);
            for (k, b) in pad.iter_mut().enumerate() {
                *b = pad_byte(c.dfill, y, k);
            }
        }
        sa.read_only();
        let r = catch_unwind(AssertUnwindSafe(|| f(sp.ptr, dp.ptr)));
        sa.writable();
        let res = match r {
            Ok(Ok(())) => Ok(Ok(())),
            Ok(Err(e)) => Ok(Err((e.code(), e.to_string()))),
            Err(_) => Err(PANIC_MSG.lock().unwrap().clone()),
        };
        let mut raw = Vec::with_capacity(dimg * c.dh);
        let mut pad_ok = true;
        for y in 0..c.dh {
            let (img, pad) = dst(y).split_at(dimg.min(dused));
            raw.extend_from_slice(img);
            pad_ok &= pad.iter().enumerate().all(|(k, &b)| b == pad_byte(c.dfill, y, k));
        }
        let src_ok = part == 0 || srcb.chunks_exact(part).enumerate().all(|(y, row)| &*src(y) == row);
        let canary_ok = sp.canary_ok() && dp.canary_ok();
        if long {
            large.0.release();
            large.1.release();
        }
        Run { res, raw, pad_ok, canary_ok, src_ok }
    })
}

fn typed<T: Px, const N: usize>(c: &Case, img: &[f64], pad: &[u8]) -> Run
where
    Api: Call<T, N>,
{
    let es = std::mem::size_of::<T>();
    let sstride = c.sw * N + c.spad;
    let dstride = c.dw * N + c.dpad;
    let part = used(sstride * es, c.sw * N * es, c.sh);
    let mut srcb = vec![0u8; part * c.sh];
    for (y, row) in srcb.chunks_exact_mut(part).enumerate() {
        for x in 0..c.sw * N {
            let v = T::of(img[y * c.sw * N + x]);
            let p = unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, es) };
            row[x * es..x * es + es].copy_from_slice(p);
        }
        for (k, b) in row[c.sw * N * es..].iter_mut().enumerate() {
            *b = pad[(k + y * 7) % pad.len()];
        }
    }
    guarded(&srcb, sstride * es, dstride * es, c.dw * N * es, c, |sp, dp| {
        let s: &[T] = unsafe { std::slice::from_raw_parts(sp as *const T, sstride * c.sh) };
        let d: &mut [T] = unsafe { std::slice::from_raw_parts_mut(dp as *mut T, dstride * c.dh) };
        let a = ImageStore::<T, N> {
            buffer: std::borrow::Cow::Borrowed(s),
            channels: N,
            width: c.sw,
            height: c.sh,
            stride: sstride,
            // the documented examples leave the depth of the source at zero
            bit_depth: if c.fmt == Fmt::U16 && c.seed & 64 == 0 { c.depth } else { 0 },
        };
        let mut b = ImageStoreMut::<T, N> {
            buffer: BufferStore::Borrowed(d),
            channels: N,
            width: c.dw,
            height: c.dh,
            stride: dstride,
            bit_depth: if c.fmt == Fmt::U16 { c.depth } else { 0 },
        };
        if c.kind == Kind::Generic {
            let o = ScalingOptions {
                resampling_function: filter(c),
                premultiply_alpha: c.premul,
                use_multithreading: c.threads != 0,
            };
            return monitored(|| Api::generic(&a, &mut b, o)).expect("generic interface");
        }
        on_scaler(c, |sc| {
            // the borrow of the scaler lasts as long as the images'
            let sc: &Scaler = unsafe { &*(sc as *const Scaler) };
            monitored(|| Api::call(sc, &a, &mut b, c.premul))
        })
    })
}

/// Monitors are on only while the library runs.
pub static WATCHED: AtomicBool = AtomicBool::new(false);
/// Non-zero: step through the call, these extensions being allowed.
pub static STEP: AtomicU64 = AtomicU64::new(0);
#[cfg(all(target_arch = "x86_64", not(miri)))]
pub static STEPPED: std::sync::Mutex<Option<crate::isa::Seen>> = std::sync::Mutex::new(None);
/// Peak of the bytes allocated during the call.
pub static MEASURE: AtomicBool = AtomicBool::new(false);
pub static PEAKED: AtomicI64 = AtomicI64::new(0);
pub use crate::guard::STARTED;

pub fn monitored<R>(f: impl FnOnce() -> R) -> R {
    if WATCHED.load(Relaxed) {
        FENCE.store(true, SeqCst);
        let r = f();
        FENCE.store(false, SeqCst);
        return r;
    }
    if MEASURE.load(Relaxed) {
        let base = LIVE.load(SeqCst);
        PEAK.store(base, SeqCst);
        LARGEST.store(0, SeqCst);
        let r = f();
        PEAKED.store(PEAK.load(SeqCst) - base, SeqCst);
        return r;
    }
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    if STEP.load(Relaxed) != 0 {
        let (r, s) = crate::isa::watch(STEP.load(Relaxed), f);
        *STEPPED.lock().unwrap() = Some(s);
        return r;
    }
    f()
}

fn colored(c: &Case, img: &[f64], pad: &[u8]) -> Run {
    let n = c.ch;
    let sstride = c.sw * n + c.spad;
    let dstride = c.dw * n + c.dpad;
    let part = used(sstride, c.sw * n, c.sh);
    let mut srcb = vec![0u8; part * c.sh];
    for (y, row) in srcb.chunks_exact_mut(part).enumerate() {
        for x in 0..c.sw * n {
            row[x] = img[y * c.sw * n + x] as u8;
        }
        for (k, b) in row[c.sw * n..].iter_mut().enumerate() {
            *b = pad[(k + y * 7) % pad.len()];
        }
    }
    guarded(&srcb, sstride, dstride, c.dw * n, c, |sp, dp| {
        let s: &[u8] = unsafe { std::slice::from_raw_parts(sp, sstride * c.sh) };
        let d: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(dp, dstride * c.dh) };
        on_color(c, |sc| {
        macro_rules! go {
            ($n:expr, $m:ident $(, $e:expr)?) => {{
                let a = ImageStore::<u8, $n> { buffer: std::borrow::Cow::Borrowed(s), channels: $n, width: c.sw, height: c.sh, stride: sstride, bit_depth: 0 };
                let mut b = ImageStoreMut::<u8, $n> { buffer: BufferStore::Borrowed(d), channels: $n, width: c.dw, height: c.dh, stride: dstride, bit_depth: 0 };
                // the lifetimes of the trait tie the scaler to the images
                let sc: &dyn Scaling = unsafe { &*(sc as *const dyn Scaling) };
                monitored(|| sc.$m(&a, &mut b $(, $e)?))
            }};
        }
        match n {
            3 => go!(3, resize_rgb),
            4 => go!(4, resize_rgba, c.premul),
            _ => go!(2, resize_cbcr8),
        }
        })
    })
}

fn packed(c: &Case, img: &[f64], pad: &[u8]) -> Run {
    let sstride = c.sw * 4 + c.spad;
    let dstride = c.dw * 4 + c.dpad;
    let part = used(sstride, c.sw * 4, c.sh);
    let mut srcb = vec![0u8; part * c.sh];
    for (y, row) in srcb.chunks_exact_mut(part).enumerate() {
        for x in 0..c.sw {
            let w = pack(c.fmt, &img[(y * c.sw + x) * 4..][..4]);
            let w = if c.net { w.swap_bytes() } else { w };
            row[x * 4..x * 4 + 4].copy_from_slice(&w.to_le_bytes());
        }
        for (k, b) in row[c.sw * 4..].iter_mut().enumerate() {
            *b = pad[(k + y * 7) % pad.len()];
        }
    }
    guarded(&srcb, sstride, dstride, c.dw * 4, c, |sp, dp| {
        let s: &[u8] = unsafe { std::slice::from_raw_parts(sp, sstride * c.sh) };
        let d: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(dp, dstride * c.dh) };
        let o = if c.net { Ar30ByteOrder::Network } else { Ar30ByteOrder::Host };
        let (a, b) = (ImageSize::new(c.sw, c.sh), ImageSize::new(c.dw, c.dh));
        on_scaler(c, |sc| {
            monitored(|| {
                if c.fmt == Fmt::Ar30 {
                    sc.resize_ar30(s, sstride, a, d, dstride, b, o)
                } else {
                    sc.resize_ra30(s, sstride, a, d, dstride, b, o)
                }
            })
        })
    })
}

/// Runs the case on the picture `img` (dense samples, `planes()` per pixel).
pub fn exec(c: &Case, img: &[f64]) -> Out {
    exec_pad(c, img, &[0x33, 0xEE, 0x7F, 0x01, 0x80])
}

pub fn exec_pad(c: &Case, img: &[f64], pad: &[u8]) -> Out {
    crate::drive::note(c);
    cpu::set(c.cpu);
    let r = if c.fmt.packed() {
        packed(c, img, pad)
    } else if !matches!(c.kind, Kind::Plain | Kind::Generic) {
        colored(c, img, pad)
    } else {
        macro_rules! n {
            ($t:ty) => {
                match c.ch {
                    1 => typed::<$t, 1>(c, img, pad),
                    2 => typed::<$t, 2>(c, img, pad),
                    3 => typed::<$t, 3>(c, img, pad),
                    _ => typed::<$t, 4>(c, img, pad),
                }
            };
        }
        match c.fmt {
            Fmt::U8 => n!(u8),
            Fmt::U16 => n!(u16),
            Fmt::F32 => n!(f32),
            _ => n!(Half),
        }
    };
    cpu::set(usize::MAX);
    FENCE.store(false, SeqCst);
    let (res, err, panic) = match r.res {
        Ok(Ok(())) => (Ok(()), String::new(), None),
        Ok(Err((e, s))) => (Err(e), s, None),
        Err(p) => (Ok(()), String::new(), Some(p)),
    };
    Out { res, err, panic, raw: r.raw, pad_ok: r.pad_ok, canary_ok: r.canary_ok, src_ok: r.src_ok }
}
