//! Refusals, containers and small mappings.
use super::gen;
use super::Prop;
use crate::case::*;
use crate::drive::{self, Obs, Tier};
use crate::exec::*;
use crate::filt;
use crate::rng::Rng;
use pic_scale::*;
use std::borrow::Cow;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), String>;

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", PANIC_MSG.lock().unwrap()))
}

// ------------------------------------------------------------------ C03

/// Geometry of one side of a malformed request: what is declared, and the buffer's real length.
#[derive(Clone, Debug)]
struct Geo {
    w: usize,
    h: usize,
    stride: usize,
    len: usize,
}
impl Geo {
    fn ok(w: usize, h: usize, n: usize, pad: usize) -> Geo {
        Geo { w, h, stride: w * n + pad, len: (w * n + pad) * h }
    }
}

const WRONGS: &[&str] = &[
    "source of zero width", "source of zero height", "destination of zero width", "destination of zero height",
    "source buffer too short", "source buffer too long", "destination buffer too short", "destination buffer too long",
    "source stride shorter than a row", "destination stride shorter than a row", "bit depth out of range",
    "source size overflows", "destination size overflows", "source stride overflows", "destination stride overflows",
    "source buffer empty", "destination buffer empty",
];

/// Makes one malformed request of kind `k`; returns the sides, the depth and the codes that fit.
fn wrong(k: usize, r: &mut Rng, n: usize, u16s: bool, good_depth: usize) -> Option<(Geo, Geo, usize, Vec<usize>)> {
    let (sw, sh, dw, dh) = (r.range(1, 20), r.range(1, 20), r.range(1, 20), r.range(1, 20));
    let same = r.chance(0.25);
    let (dw, dh) = if same { (sw, sh) } else { (dw, dh) };
    let pad = |r: &mut Rng| if r.chance(0.5) { 0 } else { r.below(9) };
    let (p, q) = (pad(r), pad(r));
    let mut s = Geo::ok(sw, sh, n, p);
    let mut d = Geo::ok(dw, dh, n, q);
    let mut depth = good_depth;
    let mut codes;
    // a wrap-around: w * n (or w * n * h) is a small number modulo the word
    let wrap = |r: &mut Rng, g: &mut Geo| {
        match r.below(4) {
            // w * n wraps to a small stride when n is even, h arbitrary
            0 if n % 2 == 0 => {
                g.w = (1usize << 63) + r.below(3) + if n == 4 { 0 } else { 0 };
                g.stride = g.w.wrapping_mul(n);
                g.len = g.stride.wrapping_mul(g.h);
            }
            // rows are sane, their number makes the product wrap to zero or a small value
            1 => {
                g.w = 1 << r.range(8, 31);
                g.stride = g.w * n;
                g.h = 1usize << (64 - g.w.trailing_zeros());
                g.len = g.stride.wrapping_mul(g.h);
            }
            2 => {
                // an odd factor: h * stride = 2^64 + small
                g.w = 1 << 32;
                g.h = (1 << 32) + 0;
                g.stride = g.w * n;
                g.len = g.stride.wrapping_mul(g.h);
            }
            _ => {
                g.w = usize::MAX;
                g.h = r.range(1, 4);
                g.stride = g.w.wrapping_mul(n);
                g.len = g.stride.wrapping_mul(g.h);
                if g.len > 1 << 16 {
                    g.len = r.below(50);
                }
            }
        }
        g.len < 1 << 16
    };
    match k {
        0 => {
            s.w = 0;
            if r.chance(0.5) {
                s.stride = r.below(2) * n;
            }
            s.len = s.stride * s.h;
            codes = vec![1];
            // a stride of zero with no width is a dense empty row
        }
        1 => {
            s.h = 0;
            s.len = 0;
            codes = vec![1];
        }
        2 => {
            d.w = 0;
            if r.chance(0.5) {
                d.stride = r.below(2) * n;
            }
            d.len = d.stride * d.h;
            codes = vec![1];
        }
        3 => {
            d.h = 0;
            d.len = 0;
            codes = vec![1];
        }
        4 => {
            let k = if r.chance(0.5) { 3 } else { 40 };
            s.len -= r.range(1, s.len.min(k));
            codes = vec![4];
        }
        5 => {
            let k = if r.chance(0.5) { 3 } else { 40 };
            s.len += r.range(1, k);
            codes = vec![4];
        }
        6 => {
            let k = if r.chance(0.5) { 3 } else { 40 };
            d.len -= r.range(1, d.len.min(k));
            codes = vec![4];
        }
        7 => {
            let k = if r.chance(0.5) { 3 } else { 40 };
            d.len += r.range(1, k);
            codes = vec![4];
        }
        8 | 9 => {
            let g = if k == 8 { &mut s } else { &mut d };
            if g.w * n < 2 {
                g.w = 2;
            }
            g.stride = r.range(1, g.w * n - 1);
            g.len = g.stride * g.h;
            codes = vec![5];
        }
        10 => {
            if !u16s {
                return None;
            }
            depth = r.pick(&[0, 17, 18, 31, 32, 33, 63, 64, 65, 255, usize::MAX]);
            codes = vec![6];
        }
        11 => {
            if !wrap(r, &mut s) {
                return None;
            }
            codes = vec![2, 4];
        }
        12 => {
            if !wrap(r, &mut d) {
                return None;
            }
            codes = vec![3, 4];
        }
        13 | 14 => {
            // a small image whose stride times height wraps to the length of the buffer
            let g = if k == 13 { &mut s } else { &mut d };
            let b = r.range(1, 12);
            g.h = 1 << b;
            g.stride = (1usize << (64 - b)) + r.below(2) * g.w * n;
            if g.stride < g.w * n {
                return None;
            }
            g.len = g.stride.wrapping_mul(g.h);
            if g.len > 1 << 16 {
                return None;
            }
            codes = if k == 13 { vec![2, 4] } else { vec![3, 4] };
        }
        15 => {
            s.len = 0;
            codes = vec![4];
        }
        _ => {
            d.len = 0;
            codes = vec![4];
        }
    }
    // with a malformed side, several complaints may be due
    if matches!(k, 11 | 12) {
        let g = if k == 11 { &s } else { &d };
        if (g.stride as u128) < g.w as u128 * n as u128 {
            codes.push(5);
        }
    }
    codes.dedup();
    Some((s, d, depth, codes))
}

fn gen03(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::ALL);
    match r.below(10) {
        0..=1 => gen::color(r, &mut c),
        2..=3 if !c.fmt.packed() => c.kind = Kind::Generic,
        _ => {}
    }
    c.premul = c.ch == 4 && r.chance(0.5);
    c.cpu = usize::MAX;
    c.threads = r.pick(&[0, 0, 0, 2]);
    c.x = (i / gen::ALL.len() % (WRONGS.len() + 1)) as u64;
    c
}

fn refuse<T: Px, const N: usize>(c: &Case, o: &mut Obs) -> R
where
    Api: Call<T, N>,
{
    let mut r = Rng::new(c.seed);
    let color_kind = !matches!(c.kind, Kind::Plain | Kind::Generic);
    let u16s = c.fmt == Fmt::U16;
    let Some((s, d, depth, codes)) = wrong(c.x as usize, &mut r, N, u16s, if u16s { c.depth } else { 0 }) else { return Ok(()) };
    let sb = vec![T::of(1.0); s.len];
    let mut db = vec![T::of(7.0); d.len];
    let keep = db.clone();
    let what = WRONGS[c.x as usize];
    let res = caught(|| {
        let a = ImageStore::<T, N> { buffer: Cow::Borrowed(&sb), channels: N, width: s.w, height: s.h, stride: s.stride, bit_depth: if u16s { c.depth } else { 0 } };
        let mut b = ImageStoreMut::<T, N> { buffer: BufferStore::Borrowed(&mut db), channels: N, width: d.w, height: d.h, stride: d.stride, bit_depth: depth };
        if color_kind {
            let sc = crate::exec::color(c).unwrap();
            let sc: &'static dyn Scaling = unsafe { &*(sc.as_ref() as *const dyn Scaling) };
            let (pa, pb) = (&a as *const ImageStore<T, N>, &mut b as *mut ImageStoreMut<T, N>);
            return unsafe {
                if N == 3 {
                    sc.resize_rgb(&*(pa as *const ImageStore<u8, 3>), &mut *(pb as *mut ImageStoreMut<u8, 3>))
                } else {
                    sc.resize_rgba(&*(pa as *const ImageStore<u8, 4>), &mut *(pb as *mut ImageStoreMut<u8, 4>), c.premul)
                }
            };
        }
        if c.kind == Kind::Generic {
            return Api::generic(&a, &mut b, ScalingOptions { resampling_function: filter(c), premultiply_alpha: c.premul, use_multithreading: c.threads != 0 }).unwrap();
        }
        let sc = scaler(c);
        let sc: &'static Scaler = unsafe { &*(&sc as *const Scaler) };
        Api::call(sc, unsafe { &*(&a as *const _) }, unsafe { &mut *(&mut b as *mut _) }, c.premul)
    });
    verdict(c, what, &format!("{s:?} -> {d:?} depth {depth}"), res, &codes, o)?;
    if db != keep {
        return Err(format!("{}: {what} ({s:?} -> {d:?}): the refused request changed the destination", c.class()));
    }
    Ok(())
}

fn verdict(c: &Case, what: &str, geo: &str, res: Result<Result<(), PicScaleError>, String>, codes: &[usize], o: &mut Obs) -> R {
    o.evals += 1;
    match res {
        Err(p) => Err(format!("{}: {what} ({geo}): {p}", c.class())),
        Ok(Ok(())) => Err(format!("{}: {what} ({geo}) was accepted", c.class())),
        Ok(Err(e)) => {
            if !codes.contains(&e.code()) {
                return Err(format!("{}: {what} ({geo}) was refused with code {} ({e}), not {codes:?}", c.class(), e.code()));
            }
            o.add(&format!("refused with code {}", e.code()), 1.0);
            o.sig(&[c.fmt as u64, c.kind as u64, c.ch as u64, c.x, c.premul as u64, c.threads as u64, e.code() as u64]);
            Ok(())
        }
    }
}

fn refuse_packed(c: &Case, o: &mut Obs) -> R {
    let mut r = Rng::new(c.seed);
    let Some((s, d, _, codes)) = wrong(c.x as usize, &mut r, 4, false, 0) else { return Ok(()) };
    let sb = vec![1u8; s.len];
    let mut db = vec![7u8; d.len];
    let keep = db.clone();
    let what = WRONGS[c.x as usize];
    let res = caught(|| {
        let sc = scaler(c);
        let ord = if c.net { Ar30ByteOrder::Network } else { Ar30ByteOrder::Host };
        let (a, b) = (ImageSize::new(s.w, s.h), ImageSize::new(d.w, d.h));
        if c.fmt == Fmt::Ar30 {
            sc.resize_ar30(&sb, s.stride, a, &mut db, d.stride, b, ord)
        } else {
            sc.resize_ra30(&sb, s.stride, a, &mut db, d.stride, b, ord)
        }
    });
    verdict(c, what, &format!("{s:?} -> {d:?}"), res, &codes, o)?;
    if db != keep {
        return Err(format!("{}: {what} ({s:?} -> {d:?}): the refused request changed the destination", c.class()));
    }
    Ok(())
}

/// Constructors refuse buffers that do not match, also when the product wraps.
fn constructors<T: Px, const N: usize>(c: &Case, o: &mut Obs) -> R {
    let mut r = Rng::new(c.seed ^ 77);
    for k in 0..6 {
        let (w, h, len) = match k {
            0 => {
                let (w, h) = (r.range(1, 30), r.range(1, 30));
                (w, h, w * h * N + r.range(1, 9))
            }
            1 => {
                let (w, h) = (r.range(1, 30), r.range(1, 30));
                (w, h, w * h * N - r.range(1, w * h * N))
            }
            2 => (1 << 32, 1 << 32, 0),
            3 => {
                let b = r.range(1, 60);
                (1usize << b, 1usize << (64 - b), 0)
            }
            4 => (usize::MAX, r.range(1, 5), r.below(20)),
            _ => {
                // 2^64 + small
                let w = 641usize;
                let h = 28778071877862015usize + r.below(2);
                (w, h, w.wrapping_mul(h).wrapping_mul(N) & 0xFFF)
            }
        };
        if (w as u128 * h as u128).checked_mul(N as u128) == Some(len as u128) {
            continue;
        }
        let mut v = vec![T::default(); len];
        let res: Vec<(&str, Result<Result<(), PicScaleError>, String>)> = vec![
            ("ImageStore::new", caught(|| ImageStore::<T, N>::new(v.clone(), w, h).map(|_| ()))),
            ("ImageStore::borrow", caught(|| ImageStore::<T, N>::borrow(&v, w, h).map(|_| ()))),
            ("ImageStore::from_slice", caught(|| ImageStore::<T, N>::from_slice(&v, w, h).map(|_| ()))),
            ("ImageStoreMut::new", caught(|| ImageStoreMut::<T, N>::new(v.clone(), w, h).map(|_| ()))),
            ("ImageStoreMut::borrow", caught(|| ImageStoreMut::<T, N>::borrow(&mut v, w, h).map(|_| ()))),
            ("ImageStoreMut::from_slice", caught(|| ImageStoreMut::<T, N>::from_slice(&mut v, w, h).map(|_| ()))),
        ];
        for (n, e) in res {
            verdict(c, &format!("{n} of {len} elements"), &format!("{w}x{h}x{N}"), e, &[4, 2, 3], o)?;
        }
    }
    Ok(())
}

macro_rules! by_type {
    ($c:expr, $f:ident, $o:expr) => {{
        macro_rules! n {
            ($t:ty) => {
                match $c.ch {
                    1 => $f::<$t, 1>($c, $o),
                    2 => $f::<$t, 2>($c, $o),
                    3 => $f::<$t, 3>($c, $o),
                    _ => $f::<$t, 4>($c, $o),
                }
            };
        }
        match $c.fmt {
            Fmt::U8 => n!(u8),
            Fmt::U16 => n!(u16),
            Fmt::F32 => n!(f32),
            _ => n!(Half),
        }
    }};
}

fn check03(c: &Case, o: &mut Obs) -> R {
    drive::note(c);
    if c.x as usize == WRONGS.len() {
        return by_type!(c, constructors, o);
    }
    if c.fmt.packed() {
        return refuse_packed(c, o);
    }
    by_type!(c, refuse, o)
}
pub const C03: Prop = Prop {
    id: "C03", gen: gen03, check: check03, quick: 60000, thorough: 600000, serial: false, per_model: false,
    rule: "One case is one malformed request (one of seventeen kinds of malformation, or six constructors on wrong buffers): it must be refused, with a fitting error code, without panic, leaving the destination as it was. Distinct: differing in format, entry point, kind of malformation, options or error code.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C22

fn gen22(r: &mut Rng, i: usize, t: Tier) -> Case {
    let mut c = gen::base(r, i, t, gen::TYPED);
    c.cpu = usize::MAX;
    c
}

struct Ideal<T> {
    w: usize,
    h: usize,
    depth: usize,
    /// dense pixels
    px: Vec<T>,
}
fn bits<T: Px>(v: T) -> u64 {
    v.to().to_bits()
}
fn same<T: Px, const N: usize>(what: &str, m: &Ideal<T>, w: usize, h: usize, depth: usize, field: usize, stride: usize, channels: usize, buf: &[T], size: ImageSize) -> R {
    if (w, h) != (m.w, m.h) || size.width != m.w || size.height != m.h {
        return Err(format!("{what}: {w}x{h} (get_size {}x{}) instead of {}x{}", size.width, size.height, m.w, m.h));
    }
    if depth != m.depth {
        return Err(format!("{what}: bit depth {depth} instead of {}", m.depth));
    }
    if channels != N {
        return Err(format!("{what}: {channels} channels instead of {N}"));
    }
    let st = if field == 0 { w * N } else { field };
    if stride != st {
        return Err(format!("{what}: stride() is {stride}, the field is {field} and a row {}", w * N));
    }
    if buf.len() != stride * h {
        return Err(format!("{what}: {} elements for {h} rows of stride {stride}", buf.len()));
    }
    for y in 0..h {
        for x in 0..w * N {
            if bits(buf[y * stride + x]) != bits(m.px[y * w * N + x]) {
                return Err(format!("{what}: sample x={} y={y} channel {} is {:?} instead of {:?}", x / N, x % N, buf[y * stride + x], m.px[y * w * N + x]));
            }
        }
    }
    Ok(())
}
fn same_im<T: Px, const N: usize>(what: &str, m: &Ideal<T>, a: &ImageStore<T, N>) -> R {
    same::<T, N>(what, m, a.width, a.height, a.bit_depth, a.stride, a.stride(), a.channels, a.as_bytes(), a.get_size())
}
fn same_mut<T: Px, const N: usize>(what: &str, m: &Ideal<T>, a: &ImageStoreMut<T, N>) -> R {
    if a.as_bytes().as_ptr() != a.buffer.borrow().as_ptr() {
        return Err(format!("{what}: as_bytes() is not the buffer"));
    }
    same::<T, N>(what, m, a.width, a.height, a.bit_depth, a.stride, a.stride(), a.channels, a.as_bytes(), a.get_size())
}

fn containers<T: Px, const N: usize>(c: &Case, o: &mut Obs) -> R
where
    Api: Call<T, N>,
{
    let mut r = Rng::new(c.seed);
    let (w, h) = (r.range(1, 24), r.range(1, 24));
    let dense: Vec<T> = (0..w * h * N).map(|_| T::of((r.next() % 250) as f64)).collect();
    let m = Ideal { w, h, depth: 0, px: dense.clone() };
    // constructors
    {
        let mut v = dense.clone();
        same_im("ImageStore::new", &m, &ImageStore::<T, N>::new(dense.clone(), w, h).map_err(|e| e.to_string())?)?;
        same_im("ImageStore::borrow", &m, &ImageStore::<T, N>::borrow(&dense, w, h).map_err(|e| e.to_string())?)?;
        same_im("ImageStore::from_slice", &m, &ImageStore::<T, N>::from_slice(&dense, w, h).map_err(|e| e.to_string())?)?;
        same_mut("ImageStoreMut::new", &m, &ImageStoreMut::<T, N>::new(dense.clone(), w, h).map_err(|e| e.to_string())?)?;
        same_mut("ImageStoreMut::borrow", &m, &ImageStoreMut::<T, N>::borrow(&mut v, w, h).map_err(|e| e.to_string())?)?;
        same_mut("ImageStoreMut::from_slice", &m, &ImageStoreMut::<T, N>::from_slice(&mut v, w, h).map_err(|e| e.to_string())?)?;
        let z = Ideal { w, h, depth: 0, px: vec![T::default(); w * h * N] };
        same_im("ImageStore::alloc", &z, &ImageStore::<T, N>::alloc(w, h))?;
        same_mut("ImageStoreMut::alloc", &z, &ImageStoreMut::<T, N>::alloc(w, h))?;
        let d = r.range(1, 16);
        same_mut("ImageStoreMut::alloc_with_depth", &Ideal { depth: d, ..z }, &ImageStoreMut::<T, N>::alloc_with_depth(w, h, d))?;
        o.evals += 9;
    }
    // a history of operations on an image with padded, dense or implicit rows
    let mode = r.below(3);
    let st = if mode == 2 { w * N + r.range(1, 9) } else { w * N };
    let field = if mode == 0 { 0 } else { st };
    let mut buf = vec![T::of(99.0); st * h];
    for y in 0..h {
        buf[y * st..y * st + w * N].copy_from_slice(&dense[y * w * N..][..w * N]);
    }
    let depth = if c.fmt == Fmt::U16 { c.depth } else { r.below(3) };
    let m = Ideal { w, h, depth, px: dense.clone() };
    let mut cur: ImageStoreMut<T, N> = ImageStoreMut { buffer: BufferStore::Owned(buf), channels: N, width: w, height: h, stride: field, bit_depth: depth };
    same_mut("a literal", &m, &cur)?;
    let mut trail = String::from(["implicit", "dense", "padded"][mode]);
    let steps = r.range(1, 6);
    for _ in 0..steps {
        let op = r.below(5);
        trail.push_str([" copied", " to_immutable.copied_to_mut", " to_immutable.copied", " mutate a copy", " resize to the same size"][op]);
        let what = trail.clone();
        match op {
            0 => {
                let n = cur.copied();
                same_mut(&what, &m, &n)?;
                cur = n;
            }
            1 => {
                let im = cur.to_immutable();
                same_im(&what, &m, &im)?;
                let imc = im.copied();
                same_im(&what, &m, &imc)?;
                let mode = r.below(3);
                let st = if mode == 2 { w * N + r.range(1, 9) } else { w * N };
                let fill = T::of(77.0);
                let mut into = ImageStoreMut::<T, N> { buffer: BufferStore::Owned(vec![fill; st * h]), channels: N, width: w, height: h, stride: if mode == 0 { 0 } else { st }, bit_depth: depth };
                im.copied_to_mut(&mut into);
                same_mut(&what, &m, &into)?;
                for y in 0..h {
                    if into.buffer.borrow()[y * st + w * N..(y + 1) * st].iter().any(|v| bits(*v) != bits(fill)) {
                        return Err(format!("{what}: copied_to_mut writes row padding"));
                    }
                }
                cur = into;
            }
            2 => {
                let im = cur.to_immutable();
                let k = im.copied();
                same_im(&what, &m, &k)?;
                let ImageStore { buffer, width, height, stride, bit_depth, .. } = k;
                let n = ImageStoreMut { buffer: BufferStore::Owned(buffer.into_owned()), channels: N, width, height, stride, bit_depth };
                same_mut(&what, &m, &n)?;
                cur = n;
            }
            3 => {
                // neither copy shares memory with the original
                let mut k = cur.copied();
                for v in k.buffer.borrow_mut() {
                    *v = T::of(3.0);
                }
                let im = cur.to_immutable().copied();
                for v in cur.buffer.borrow_mut() {
                    if bits(*v) == bits(T::of(3.0)) {
                        // leave pixels as they are
                    }
                }
                same_mut(&what, &m, &cur)?;
                same_im(&what, &m, &im)?;
            }
            _ => {
                let im = cur.to_immutable();
                let mode = r.below(3);
                let st = if mode == 2 { w * N + r.range(1, 9) } else { w * N };
                let fd = if c.fmt == Fmt::U16 { c.depth } else { depth };
                let mut into = ImageStoreMut::<T, N> { buffer: BufferStore::Owned(vec![T::of(55.0); st * h]), channels: N, width: w, height: h, stride: if mode == 0 { 0 } else { st }, bit_depth: fd };
                let sc = scaler(c);
                let sc: &'static Scaler = unsafe { &*(&sc as *const Scaler) };
                let res = caught(|| Api::call(sc, unsafe { &*(&im as *const _) }, unsafe { &mut *(&mut into as *mut _) }, false))?;
                if let Err(e) = res {
                    return Err(format!("{what}: refused: {e}"));
                }
                same_mut(&what, &m, &into)?;
                let q: ImageStoreMut<T, N> = into.copied();
                cur = ImageStoreMut { buffer: BufferStore::Owned(q.buffer.borrow().to_vec()), channels: N, width: q.width, height: q.height, stride: q.stride, bit_depth: q.bit_depth };
            }
        }
        o.evals += 1;
    }
    // implicit rows mean the same as dense rows to a resize
    let (dw, dh) = (r.range(1, 24), r.range(1, 24));
    let mut outs = vec![];
    for zero in [false, true] {
        let a = ImageStore::<T, N> { buffer: Cow::Borrowed(&dense), channels: N, width: w, height: h, stride: if zero { 0 } else { w * N }, bit_depth: depth };
        let mut b = ImageStoreMut::<T, N> { buffer: BufferStore::Owned(vec![T::of(11.0); dw * dh * N]), channels: N, width: dw, height: dh, stride: if zero { 0 } else { dw * N }, bit_depth: if c.fmt == Fmt::U16 { c.depth } else { 0 } };
        let sc = scaler(c);
        let sc: &'static Scaler = unsafe { &*(&sc as *const Scaler) };
        let premul = c.ch == 4 && c.seed & 2 == 2;
        caught(|| Api::call(sc, unsafe { &*(&a as *const _) }, unsafe { &mut *(&mut b as *mut _) }, premul))?
            .map_err(|e| format!("{}: an image with {} stride is refused: {e}", c.class(), if zero { "zero (densely packed)" } else { "dense" }))?;
        outs.push(b.buffer.borrow().iter().map(|v| bits(*v)).collect::<Vec<_>>());
    }
    if outs[0] != outs[1] {
        return Err(format!("{}: {w}x{h} -> {dw}x{dh} gives another result with stride zero than with stride width*channels", c.class()));
    }
    o.add("container operations in histories", steps as f64);
    o.add("resizes of images with implicit stride", 1.0);
    o.sig(&[c.fmt as u64, c.ch as u64, w as u64, h as u64, mode as u64, steps as u64]);
    o.sig(&[drive_hash(&trail)]);
    Ok(())
}
fn drive_hash(s: &str) -> u64 {
    crate::rng::hash(&s.bytes().map(|b| b as u64).collect::<Vec<_>>())
}
fn check22(c: &Case, o: &mut Obs) -> R {
    drive::note(c);
    by_type!(c, containers, o).map_err(|e| if e.contains(&c.class()) { e } else { format!("{:?}x{}: {e}", c.fmt, c.ch) })
}
pub const C22: Prop = Prop {
    id: "C22", gen: gen22, check: check22, quick: 40000, thorough: 400000, serial: false, per_model: false,
    rule: "One case is one image built in every way, then taken through a random history of copies, conversions, copies into other images and same-size resizes, compared after each step with a model of pixels, stride, depth and padding; and a resize with implicit stride. Distinct: differing in format, size, row layout or history.",
    init: None, fini: None,
};

// ------------------------------------------------------------------ C26

fn gen26(r: &mut Rng, i: usize, _: Tier) -> Case {
    let mut c = Case::default();
    c.x = (i % 5) as u64;
    c.seed = r.next() | 1;
    c
}
fn error_of(code: usize, k: usize) -> PicScaleError {
    match code {
        1 => PicScaleError::ZeroImageDimensions,
        2 => PicScaleError::SourceImageIsTooLarge,
        3 => PicScaleError::DestinationImageIsTooLarge,
        4 => PicScaleError::BufferMismatch(PicScaleBufferMismatch { expected: k, width: k, height: k, channels: k, slice_len: k }),
        5 => PicScaleError::InvalidStride(k, k / 2),
        6 => PicScaleError::UnsupportedBitDepth(k),
        _ => PicScaleError::UnknownResizingFilter,
    }
}
fn dim(r: &mut Rng) -> usize {
    let b = r.below(65);
    let m = if b == 64 { usize::MAX } else { (1usize << b) - 1 };
    match r.below(4) {
        0 => m.max(1),
        1 => m.saturating_add(1),
        _ => (r.next() as usize & m).max(1),
    }
}
fn check26(c: &Case, o: &mut Obs) -> R {
    drive::note(c);
    let mut r = Rng::new(c.seed);
    let host = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    o.evals += 1;
    match c.x {
        0 => {
            let s = ImageSize::new(dim(&mut r), dim(&mut r));
            let n = r.pick(&[0, 1, 2, 3, 7, 64, 1000, usize::MAX]);
            let single = caught(|| ThreadingPolicy::Single.thread_count(s))?;
            let fixed = caught(|| ThreadingPolicy::Fixed(n).thread_count(s))?;
            if single != 1 || fixed != n.max(1) {
                return Err(format!("thread counts for {}x{}: Single {single}, Fixed({n}) {fixed}", s.width, s.height));
            }
            o.sig(&[0, n as u64, s.width.leading_zeros() as u64, s.height.leading_zeros() as u64]);
        }
        1 => {
            // adaptive: bounded, and monotone in the true area
            let mut v: Vec<(u128, usize, ImageSize)> = vec![];
            for k in 0..12 {
                let s = if k < 6 { ImageSize::new(dim(&mut r), dim(&mut r)) } else { ImageSize::new(r.range(1, 4000), r.range(1, 4000)) };
                let t = caught(|| ThreadingPolicy::Adaptive.thread_count(s)).map_err(|e| format!("Adaptive for {}x{}: {e}", s.width, s.height))?;
                if t < 1 || t > host {
                    return Err(format!("Adaptive gives {t} threads for {}x{} with {host} available", s.width, s.height));
                }
                v.push((s.width as u128 * s.height as u128, t, s));
            }
            v.sort_by_key(|x| x.0);
            for p in v.windows(2) {
                if p[0].1 > p[1].1 {
                    return Err(format!(
                        "Adaptive gives {} threads for {}x{} and {} for the larger {}x{}",
                        p[0].1, p[0].2.width, p[0].2.height, p[1].1, p[1].2.width, p[1].2.height
                    ));
                }
            }
            for x in &v {
                o.sig(&[1, x.1 as u64, x.0.leading_zeros() as u64]);
                o.max("most threads of the adaptive policy", x.1 as f64);
            }
        }
        2 => {
            // the pool made for a policy has that many workers
            let s = ImageSize::new(r.range(1, 2500), r.range(1, 2500));
            let p = match r.below(4) {
                0 => ThreadingPolicy::Single,
                1 => ThreadingPolicy::Adaptive,
                _ => ThreadingPolicy::Fixed(r.below(20)),
            };
            let n = p.thread_count(s);
            let pool = caught(|| p.get_pool(s))?;
            let got = pool.as_ref().map(|p| p.current_num_threads());
            if got.unwrap_or(1) != n || (p == ThreadingPolicy::Single && got.is_some()) {
                return Err(format!("{p:?} for {}x{}: a pool of {got:?} threads where thread_count says {n}", s.width, s.height));
            }
            o.add("pools measured", 1.0);
            o.sig(&[2, n as u64]);
        }
        3 => {
            let mut names = std::collections::HashSet::new();
            for i in 0..49u32 {
                let n = format!("{:?}", caught(|| ResamplingFunction::from(i))?);
                if n != filt::NAMES[i as usize] {
                    return Err(format!("filter number {i} selects {n} instead of {}", filt::NAMES[i as usize]));
                }
                names.insert(n);
                o.sig(&[3, i as u64]);
            }
            if names.len() != 49 {
                return Err("two filter numbers select the same filter".into());
            }
            for _ in 0..200 {
                let b = r.range(6, 32);
                let i = ((r.next() & ((1u64 << b) - 1)) as u32).max(49);
                let n = caught(|| ResamplingFunction::from(i))?;
                if n != ResamplingFunction::Bilinear {
                    return Err(format!("filter number {i} selects {n:?} instead of Bilinear"));
                }
                o.sig(&[4, i as u64]);
            }
            for i in (49..400).chain([u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16]) {
                if ResamplingFunction::from(i) != ResamplingFunction::Bilinear {
                    return Err(format!("filter number {i} selects {:?} instead of Bilinear", ResamplingFunction::from(i)));
                }
            }
        }
        _ => {
            for code in 1..=7 {
                let k = r.next() as usize;
                let e = error_of(code, k);
                if e.code() != code {
                    return Err(format!("{e:?} has code {} instead of {code}", e.code()));
                }
                let text = caught(|| e.to_string())?;
                if text.is_empty() || (matches!(code, 4..=6) && !text.contains(&k.to_string())) {
                    return Err(format!("{e:?} is described as '{text}'"));
                }
                o.sig(&[5, code as u64, k.leading_zeros() as u64]);
            }
        }
    }
    Ok(())
}
pub const C26: Prop = Prop {
    id: "C26", gen: gen26, check: check26, quick: 60000, thorough: 600000, serial: false, per_model: false,
    rule: "One case is one probe of the thread counts (also for sizes near the machine word), the pools made from them, all filter numbers, or the error codes. Distinct: differing in policy, magnitude of the size, number or code.",
    init: None, fini: None,
};

#[allow(dead_code)]
fn _assert_debug<T: Debug>() {}
