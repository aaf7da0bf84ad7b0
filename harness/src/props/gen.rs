//! Random requests.
use crate::case::*;
use crate::cpu;
use crate::drive::Tier;
use crate::filt;
use crate::pict;
use crate::rng::Rng;

/// (format, channels, depth class) combinations that are cycled through.
pub const TYPED: &[(Fmt, usize)] = &[
    (Fmt::U8, 1), (Fmt::U8, 2), (Fmt::U8, 3), (Fmt::U8, 4),
    (Fmt::U16, 1), (Fmt::U16, 2), (Fmt::U16, 3), (Fmt::U16, 4),
    (Fmt::F32, 1), (Fmt::F32, 2), (Fmt::F32, 3), (Fmt::F32, 4),
    (Fmt::F16, 1), (Fmt::F16, 2), (Fmt::F16, 3), (Fmt::F16, 4),
];
pub const U8S: &[(Fmt, usize)] = &[(Fmt::U8, 1), (Fmt::U8, 2), (Fmt::U8, 3), (Fmt::U8, 4)];
pub const U16S: &[(Fmt, usize)] = &[(Fmt::U16, 1), (Fmt::U16, 2), (Fmt::U16, 3), (Fmt::U16, 4)];
pub const FLOATS: &[(Fmt, usize)] = &[
    (Fmt::F32, 1), (Fmt::F32, 2), (Fmt::F32, 3), (Fmt::F32, 4), (Fmt::F16, 1), (Fmt::F16, 2), (Fmt::F16, 3), (Fmt::F16, 4),
];
pub const ALL: &[(Fmt, usize)] = &[
    (Fmt::U8, 1), (Fmt::U8, 2), (Fmt::U8, 3), (Fmt::U8, 4),
    (Fmt::U16, 1), (Fmt::U16, 2), (Fmt::U16, 3), (Fmt::U16, 4),
    (Fmt::F32, 1), (Fmt::F32, 2), (Fmt::F32, 3), (Fmt::F32, 4),
    (Fmt::F16, 1), (Fmt::F16, 2), (Fmt::F16, 3), (Fmt::F16, 4),
    (Fmt::Ar30, 4), (Fmt::Ra30, 4),
];
pub const RGBA: &[(Fmt, usize)] = &[(Fmt::U8, 4), (Fmt::U16, 4), (Fmt::F32, 4), (Fmt::F16, 4)];
pub const PACKED: &[(Fmt, usize)] = &[(Fmt::Ar30, 4), (Fmt::Ra30, 4)];

fn side(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => r.range(1, 4),
        1..=5 => r.range(1, 24),
        6..=8 => r.range(1, 70),
        _ => r.range(60, 140),
    }
}

/// Sizes: every residue of every vector loop, one-pixel sides, pure vertical and pure horizontal
/// work, large ratios both ways, near-equal sizes.
pub fn sizes(r: &mut Rng, tier: Tier, c: &mut Case) {
    let big = tier == Tier::Thorough;
    // rarely very long rows or columns: past 8, 15 and 16 bits of position
    if r.below(1000) < 6 {
        let l = match r.below(10) {
            0..=5 => r.range(1500, 9000),
            6 => r.range(16300, 16500),
            7 => r.range(32700, 33000),
            _ => r.range(65500, 66000),
        };
        let m = match r.below(4) {
            0 => r.range(1, 9),
            1 => l / r.range(2, 5) + r.below(3),
            2 => r.range(100, 1500),
            _ => l + r.below(7) - 3,
        };
        // (the portable half-float path converts the whole source for every row)
        let short = |n: usize| if c.fmt == Fmt::F16 { n.min(2500) } else { n };
        let (l, m) = if r.chance(0.35) { (m, l) } else { (l, m) };
        let (p, q) = (r.range(1, 3), r.range(1, 3));
        (c.sw, c.sh, c.dw, c.dh) = match r.below(4) {
            0 => (l, p, m, p),
            1 => (l, p, m, q),
            2 => (p, short(l), p, short(m)),
            _ => (p, short(l), q, short(m)),
        };
        return;
    }
    // and large areas
    if r.below(1000) < 3 {
        (c.sw, c.sh, c.dw, c.dh) = (r.range(150, 420), r.range(150, 420), r.range(150, 420), r.range(150, 420));
        return;
    }
    let (sw, sh, dw, dh) = match r.below(100) {
        0..=29 => (r.range(1, 24), r.range(1, 24), r.range(1, 24), r.range(1, 24)),
        30..=47 => (side(r), side(r), side(r), side(r)),
        48..=59 => {
            // vertical only
            let w = if r.chance(0.7) { r.range(1, 90) } else { r.range(1, 300) };
            (w, r.range(1, 40), w, r.range(1, 40))
        }
        60..=71 => {
            let h = r.range(1, 13);
            (side(r), h, side(r), h)
        }
        72..=77 => {
            let s = [r.range(1, 40), r.range(1, 40), r.range(1, 40), r.range(1, 40)];
            let k = r.below(15) + 1;
            let p = |i: usize| if k >> i & 1 == 1 { 1 } else { s[i] };
            (p(0), p(1), p(2), p(3))
        }
        78..=84 => {
            // large reductions
            let m = if big { 3000 } else { 700 };
            if r.chance(0.5) {
                (r.range(100, m), r.range(1, 6), r.range(1, 9), r.range(1, 6))
            } else {
                (r.range(1, 40), r.range(100, m), r.range(1, 40), r.range(1, 9))
            }
        }
        85..=89 => {
            // large enlargements
            let m = if big { 900 } else { 250 };
            if r.chance(0.5) {
                (r.range(1, 9), r.range(1, 6), r.range(60, m), r.range(1, 6))
            } else {
                (r.range(1, 6), r.range(1, 9), r.range(1, 6), r.range(60, m))
            }
        }
        90..=94 => {
            let (w, h) = (r.range(1, 40), r.range(1, 30));
            let k = r.range(2, 5);
            if r.chance(0.5) {
                (w, h, w * k, h * k)
            } else {
                (w * k, h * k, w, h)
            }
        }
        95..=97 => {
            let (w, h) = (r.range(2, 60), r.range(2, 60));
            (w, h, w + r.below(3) - 1, h + r.below(3) - 1)
        }
        _ => (r.range(1, if big { 400 } else { 160 }), r.range(1, 60), r.range(1, if big { 400 } else { 160 }), r.range(1, 60)),
    };
    c.sw = sw;
    c.sh = sh;
    c.dw = dw;
    c.dh = dh;
}

pub fn pick_cpu(r: &mut Rng) -> usize {
    let m = cpu::usable_models();
    if m.is_empty() || r.chance(0.25) {
        return usize::MAX;
    }
    m[r.below(m.len())]
}

/// The processor of case `i`, the same for all cases of a worker that has every sixteenth.
pub fn cpu_of(i: usize) -> usize {
    let m = cpu::usable_models();
    if m.is_empty() { usize::MAX } else { m[i % cpu::nmodels() % m.len()] }
}

pub fn depth(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=1 => 10,
        2 => 12,
        3 => 8,
        4..=5 => 16,
        _ => r.range(1, 16),
    }
}

/// A random well-formed request among `fmts`, cycling so that every format meets every filter.
pub fn base(r: &mut Rng, i: usize, tier: Tier, fmts: &[(Fmt, usize)]) -> Case {
    let mut c = Case::default();
    let (f, n) = fmts[i % fmts.len()];
    c.fmt = f;
    c.ch = n;
    c.depth = if f == Fmt::U16 { depth(r) } else if f == Fmt::U8 { 8 } else { 0 };
    c.filter = if r.chance(0.7) { ((i / fmts.len()) % 49) as u32 } else { r.below(49) as u32 };
    sizes(r, tier, &mut c);
    if r.chance(0.5) {
        c.spad = r.below(20) * if f.packed() { 4 } else { 1 };
    }
    if r.chance(0.5) {
        c.dpad = r.below(20) * if f.packed() { 4 } else { 1 };
    }
    c.sfront = r.chance(0.3);
    c.dfront = r.chance(0.3);
    c.threads = match r.below(12) {
        0 => -1,
        1 => 1,
        2 => r.range(2, 8) as i64,
        _ => 0,
    };
    c.speed = r.chance(0.6);
    c.cpu = pick_cpu(r);
    c.content = r.below(pict::CONTENTS as usize) as u32;
    c.alpha = r.below(pict::ALPHAS as usize) as u32;
    c.seed = r.next() | 1;
    c.dfill = r.pick(&[0x00, 0x5A, 0xFF, 0x3C]);
    c.net = f.packed() && r.chance(0.5);
    c
}

pub fn not_same(r: &mut Rng, c: &mut Case) {
    if c.sw == c.dw && c.sh == c.dh {
        if r.chance(0.5) {
            c.dw += 1 + r.below(9);
        } else {
            c.dh += 1 + r.below(9);
        }
    }
}
pub fn not_nearest(r: &mut Rng, c: &mut Case) {
    while c.filter == filt::NEAREST {
        c.filter = r.below(49) as u32;
    }
}
pub fn color(r: &mut Rng, c: &mut Case) {
    c.fmt = Fmt::U8;
    c.depth = 8;
    c.kind = r.pick(COLOR_KINDS);
    c.ch = r.range(3, 4);
    c.tf = r.below(7) as u32;
    avoid_finding(c);
}
/// The colour library reads past the end of RGB rows in its SSE sigmoid conversion (see
/// known_findings.json): that request is replayed on its own, not met at random.
pub fn meets_finding(c: &Case) -> bool {
    c.kind == Kind::Sigmoid && c.ch == 3 && (1..=6).contains(&c.cpu)
}
pub fn avoid_finding(c: &mut Case) {
    if meets_finding(c) {
        c.cpu = usize::MAX;
    }
}
