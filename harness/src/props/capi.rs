//! The C wrapper (/repo/picscale), called as a C program would.
use super::gen;
use super::Prop;
use crate::case::*;
use crate::cpu;
use crate::drive::{self, Obs, Tier};
use crate::exec::*;
use crate::guard::Arena;
use crate::pict::picture;
use crate::rng::Rng;
use pic_scale::*;
use picscale as c_api;
use std::cell::RefCell;

type R = Result<(), String>;

fn gen27(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::TYPED);
    c.filter = (i / gen::TYPED.len() % 6) as u32;
    c.premul = r.chance(0.4);
    c.threads = if r.chance(0.3) { -1 } else { 0 };
    c.spad = r.below(24);
    c.dpad = r.below(24);
    if r.chance(0.3) {
        c.spad = 0;
    }
    if r.chance(0.3) {
        c.dpad = 0;
    }
    c.x = r.next();
    c
}

/// The six filters of the C interface, by number.
fn c_filter(k: u32) -> (c_api::ScalingFilter, ResamplingFunction) {
    match k {
        0 => (c_api::ScalingFilter::Nearest, ResamplingFunction::Nearest),
        1 => (c_api::ScalingFilter::Bilinear, ResamplingFunction::Bilinear),
        2 => (c_api::ScalingFilter::Lanczos3, ResamplingFunction::Lanczos3),
        3 => (c_api::ScalingFilter::MitchellNetravalli, ResamplingFunction::MitchellNetravalli),
        4 => (c_api::ScalingFilter::Bicubic, ResamplingFunction::Bicubic),
        _ => (c_api::ScalingFilter::CatmullRom, ResamplingFunction::CatmullRom),
    }
}

struct Args {
    src: *const u8,
    ss: usize,
    sw: u32,
    sh: u32,
    dst: *mut u8,
    ds: usize,
    dw: u32,
    dh: u32,
    depth: u32,
    flags: u32,
}

fn c_call(c: &Case, a: &Args) -> usize {
    let f = c_filter(c.filter).0;
    macro_rules! go {
        ($m:ident, $t:ty) => {
            c_api::$m(a.src as *const $t, a.ss, a.sw, a.sh, a.dst as *mut $t, a.ds, a.dw, a.dh, f, a.flags)
        };
        ($m:ident, $t:ty, depth) => {
            c_api::$m(a.src as *const $t, a.ss, a.sw, a.sh, a.dst as *mut $t, a.ds, a.dw, a.dh, a.depth, f, a.flags)
        };
    }
    match (c.fmt, c.ch) {
        (Fmt::U8, 1) => go!(pic_scale_resize_planar8, u8),
        (Fmt::U8, 2) => go!(pic_scale_resize_cbcr8, u8),
        (Fmt::U8, 3) => go!(pic_scale_resize_rgb8, u8),
        (Fmt::U8, _) => go!(pic_scale_resize_rgba8, u8),
        (Fmt::U16, 1) => go!(pic_scale_resize_planar16, u16, depth),
        (Fmt::U16, 2) => go!(pic_scale_resize_cbcr16, u16, depth),
        (Fmt::U16, 3) => go!(pic_scale_resize_rgb16, u16, depth),
        (Fmt::U16, _) => go!(pic_scale_resize_rgba16, u16, depth),
        (Fmt::F32, 1) => go!(pic_scale_resize_planar_f32, f32),
        (Fmt::F32, 2) => go!(pic_scale_resize_cbcr_f32, f32),
        (Fmt::F32, 3) => go!(pic_scale_resize_rgb_f32, f32),
        (Fmt::F32, _) => go!(pic_scale_resize_rgba_f32, f32),
        (_, 1) => go!(pic_scale_resize_planar_f16, u16),
        (_, 2) => go!(pic_scale_resize_cbcr_f16, u16),
        (_, 3) => go!(pic_scale_resize_rgb_f16, u16),
        _ => go!(pic_scale_resize_rgba_f16, u16),
    }
}

thread_local! {
    static ARENAS: RefCell<(Arena, Arena)> = const { RefCell::new((Arena::empty(), Arena::empty())) };
}

/// `len` bytes at a guard page whose address is `off` modulo the sample size; a gap of less than
/// a sample may remain beside the page.
fn spot(a: &mut Arena, len: usize, front: bool, es: usize, off: usize) -> (crate::guard::Placed, *mut u8) {
    if front {
        let p = a.place(len + off, true);
        (p, unsafe { p.ptr.add(off) })
    } else {
        let gap = (es - (len + off) % es) % es;
        let p = a.place(len + gap, false);
        (p, p.ptr)
    }
}

fn compare<T: Px, const N: usize>(c: &Case, o: &mut Obs) -> R
where
    Api: Call<T, N>,
{
    let es = std::mem::size_of::<T>();
    let mut r = Rng::new(c.x);
    let img = picture(c);
    let dense: Vec<T> = img.iter().map(|&v| T::of(v)).collect();
    let bytes = |v: &[T]| -> Vec<u8> { unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * es) }.to_vec() };
    let db = bytes(&dense);
    let (srow, drow) = (c.sw * N * es, c.dw * N * es);
    // padding in bytes: any number for some, whole samples for others
    let odd = r.below(4);
    let pad = |p: usize, any: bool| if any { p } else { p * es };
    let ss = srow + pad(c.spad, odd & 1 == 1);
    let ds = drow + pad(c.dpad, odd & 2 == 2);
    let (so, dof) = if r.chance(0.5) { (0, 0) } else { (r.below(es), r.below(es)) };
    let flags = (c.premul as u32) | (c.threads != 0) as u32 * 2;
    // what may be wrong with the request
    let wrong = if r.chance(0.12) { r.range(1, 7) } else { 0 };
    let mut a = Args { src: std::ptr::null(), ss, sw: c.sw as u32, sh: c.sh as u32, dst: std::ptr::null_mut(), ds, dw: c.dw as u32, dh: c.dh as u32, depth: c.depth as u32, flags };
    let mut codes: Vec<usize> = vec![0];
    match wrong {
        1 => (a.sw, codes) = (0, vec![1]),
        2 => (a.sh, codes) = (0, vec![1]),
        3 => (a.dw, codes) = (0, vec![1]),
        4 => (a.dh, codes) = (0, vec![1]),
        5 => (a.ss, codes) = (r.below(srow), vec![4, 5]),
        6 => (a.ds, codes) = (r.below(drow), vec![4, 5]),
        7 if c.fmt == Fmt::U16 => (a.depth, codes) = (r.pick(&[0, 17, 32, 64, 255, u32::MAX]), vec![6]),
        _ => {}
    }
    let refused = codes != [0];
    // the Rust interface on aligned, dense images
    let mut want = vec![T::default(); c.dw * c.dh * N];
    if !refused {
        cpu::set(c.cpu);
        let src = ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(&dense), channels: N, width: c.sw, height: c.sh, stride: c.sw * N, bit_depth: c.depth };
        let mut dst = ImageStoreMut::<T, N> {
            buffer: BufferStore::Borrowed(&mut want),
            channels: N,
            width: c.dw,
            height: c.dh,
            stride: c.dw * N,
            bit_depth: if c.fmt == Fmt::U16 { c.depth } else { 16 },
        };
        let opt = ScalingOptions { resampling_function: c_filter(c.filter).1, premultiply_alpha: c.premul, use_multithreading: c.threads != 0 };
        let e = Api::generic(&src, &mut dst, opt).expect("generic interface");
        cpu::set(usize::MAX);
        e.map_err(|e| format!("the Rust interface refuses: {e}"))?;
    }
    let wb = bytes(&want);
    drive::note(c);
    // the destination before the call
    let before = |i: usize| if i % ds < drow { c.dfill } else { pad_byte(c.dfill, i / ds, i % ds - drow) };
    ARENAS.with(|ar| {
        let mut ar = ar.borrow_mut();
        let (sa, da) = &mut *ar;
        // the buffers have the sizes of the well-formed request
        let (sp, s) = spot(sa, ss * c.sh, c.sfront, es, so);
        let (dp, d) = spot(da, ds * c.dh, c.dfront, es, dof);
        unsafe {
            let sl = std::slice::from_raw_parts_mut(s, ss * c.sh);
            for (y, row) in sl.chunks_exact_mut(ss).enumerate() {
                row[..srow].copy_from_slice(&db[y * srow..][..srow]);
                row[srow..].fill(0xEE);
            }
            for (i, b) in std::slice::from_raw_parts_mut(d, ds * c.dh).iter_mut().enumerate() {
                *b = before(i);
            }
        }
        a.src = s;
        a.dst = d;
        let what = || {
            format!(
                "C {}: {}x{} -> {}x{}, strides {} and {}, source at {} and destination at {} modulo the sample size, flags {flags}, depth {}",
                c.class().replace(crate::filt::NAMES[c.filter as usize], &format!("{:?}", c_filter(c.filter).1)),
                a.sw, a.sh, a.dw, a.dh, a.ss, a.ds, s as usize % es, d as usize % es, a.depth
            )
        };
        sa.read_only();
        cpu::set(c.cpu);
        let code = monitored(|| c_call(c, &a));
        cpu::set(usize::MAX);
        sa.writable();
        o.evals += 1;
        if !codes.contains(&code) {
            return Err(format!("{}: returns {code} where the Rust interface gives {codes:?}", what()));
        }
        if !sp.canary_ok() || !dp.canary_ok() {
            return Err(format!("{}: bytes outside an image were written", what()));
        }
        let got = unsafe { std::slice::from_raw_parts(d, ds * c.dh) };
        if refused {
            if got.iter().enumerate().any(|(i, &b)| b != before(i)) {
                return Err(format!("{}: a refused request changed the destination", what()));
            }
            o.add(&format!("refused with code {code}"), 1.0);
            return Ok(());
        }
        for (y, row) in got.chunks_exact(ds).enumerate() {
            if let Some(i) = (0..drow).find(|&i| row[i] != wb[y * drow + i]) {
                return Err(format!("{}: sample {} of row {y} differs from the Rust interface's", what(), i / es));
            }
            if (drow..ds).any(|k| row[k] != before(y * ds + k)) {
                return Err(format!("{}: row padding of the destination was written", what()));
            }
        }
        let mis = (s as usize % es != 0 || ss % es != 0, d as usize % es != 0 || ds % es != 0);
        o.add("C calls equal to the Rust interface", 1.0);
        if mis.0 || mis.1 {
            o.add("of them with misaligned images", 1.0);
        }
        o.sig(&[c.fmt as u64, c.ch as u64, c.depth as u64, c.filter as u64, flags as u64, mis.0 as u64 + 2 * mis.1 as u64, c.sw as u64, c.dw as u64, c.sh as u64, c.dh as u64]);
        Ok(())
    })
}

fn check27(c: &Case, o: &mut Obs) -> R {
    macro_rules! n {
        ($t:ty) => {
            match c.ch {
                1 => compare::<$t, 1>(c, o),
                2 => compare::<$t, 2>(c, o),
                3 => compare::<$t, 3>(c, o),
                _ => compare::<$t, 4>(c, o),
            }
        };
    }
    match c.fmt {
        Fmt::U8 => n!(u8),
        Fmt::U16 => n!(u16),
        Fmt::F32 => n!(f32),
        _ => n!(Half),
    }
}
pub const C27: Prop = Prop {
    id: "C27", gen: gen27, check: check27, quick: 40000, thorough: 400000, serial: false, per_model: false,
    rule: "One case is one call of one of the sixteen functions of the C wrapper, with images against inaccessible pages, strides in bytes (also not a multiple of the sample), pointers aligned and not, and malformed requests; status, pixels, row padding and source are compared with the Rust interface. Distinct: differing in function, filter, flags, alignment, depth or sizes.",
    init: None, fini: None,
};
