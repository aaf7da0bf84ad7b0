//! Watches the instruction stream of this very process: the trap flag makes the processor raise
//! SIGTRAP after every instruction, and the handler looks at the next one before it runs, asking
//! which instruction-set extension it belongs to.
#![cfg(all(target_arch = "x86_64", not(miri)))]
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

/// Extensions, as bits.
macro_rules! ext {
    ($($n:ident = $s:expr),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[repr(u32)]
        enum X { $($n),* }
        pub const EXT: &[&str] = &[$($s),*];
        $(#[allow(dead_code)] pub const $n: u64 = 1 << (X::$n as u32);)*
    };
}
ext!(
    SSE3 = "sse3", SSSE3 = "ssse3", SSE41 = "sse4.1", SSE42 = "sse4.2", POPCNT = "popcnt", AVX = "avx", AVX2 = "avx2",
    FMA = "fma", F16C = "f16c", BMI1 = "bmi1", BMI2 = "bmi2", LZCNT = "lzcnt", AVXVNNI = "avxvnni", F = "avx512f",
    CD = "avx512cd", BW = "avx512bw", DQ = "avx512dq", VL = "avx512vl", VBMI = "avx512vbmi", VBMI2 = "avx512vbmi2",
    VNNI = "avx512vnni", IFMA = "avx512ifma", BITALG = "avx512bitalg", VPOP = "avx512vpopcntdq", BF16 = "avx512bf16",
    FP16 = "avx512fp16", GFNI = "gfni", VAES = "vaes", VPCL = "vpclmulqdq", OTHER = "other",
);

fn is(x: u8, v: &[u8]) -> bool {
    v.contains(&x)
}
fn within(x: u8, v: &[(u8, u8)]) -> bool {
    v.iter().any(|&(a, b)| a <= x && x <= b)
}

/// integer operations of opcode map 1 (0F) whose 256-bit forms are AVX2
fn int_map1(op: u8) -> bool {
    within(op, &[(0x60, 0x6D), (0x70, 0x76), (0xD1, 0xD5), (0xD7, 0xDF), (0xE0, 0xE5), (0xE8, 0xEF), (0xF1, 0xF6), (0xF8, 0xFE)])
}

/// The extensions the instruction at `p` needs (0: the x86-64 baseline).
/// `p` points at readable code with at least 15 bytes behind it.
pub unsafe fn needs(p: *const u8) -> u64 {
    let mut i = 0;
    let (mut p66, mut rep) = (false, 0u8);
    loop {
        match *p.add(i) {
            0x66 => p66 = true,
            b @ (0xF2 | 0xF3) => rep = b,
            0x67 | 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0xF0 => {}
            _ => break,
        }
        i += 1;
        if i > 8 {
            return 0;
        }
    }
    let b = *p.add(i);
    if b == 0xC5 || b == 0xC4 {
        let (map, w, l, pp, op, modrm);
        if b == 0xC5 {
            let v = *p.add(i + 1);
            map = 1;
            w = false;
            l = v >> 2 & 1;
            pp = v & 3;
            op = *p.add(i + 2);
            modrm = *p.add(i + 3);
        } else {
            let (v1, v2) = (*p.add(i + 1), *p.add(i + 2));
            map = v1 & 31;
            w = v2 >> 7 == 1;
            l = v2 >> 2 & 1;
            pp = v2 & 3;
            op = *p.add(i + 3);
            modrm = *p.add(i + 4);
        }
        return vex(map, w, l == 1, pp, op, modrm >> 6 == 3);
    }
    if b == 0x62 {
        let (v1, v2, v3) = (*p.add(i + 1), *p.add(i + 2), *p.add(i + 3));
        let op = *p.add(i + 4);
        let modrm = *p.add(i + 5);
        return evex(v1 & 7, v2 >> 7 == 1, v3 >> 5 & 3, v2 & 3, op, modrm, v3 >> 4 & 1 == 1);
    }
    // legacy
    let mut j = i;
    if b & 0xF0 == 0x40 {
        j += 1;
    }
    if *p.add(j) != 0x0F {
        return 0;
    }
    let o = *p.add(j + 1);
    match o {
        0x38 => {
            let o = *p.add(j + 2);
            match o {
                0x00..=0x0B | 0x1C..=0x1E => SSSE3,
                0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x38..=0x41 => SSE41,
                0x37 => SSE42,
                0xF0 | 0xF1 if rep == 0xF2 => SSE42,
                0xCF => GFNI,
                _ => OTHER,
            }
        }
        0x3A => match *p.add(j + 2) {
            0x0F => SSSE3,
            0x08..=0x0E | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => SSE41,
            0x60..=0x63 => SSE42,
            0xCE | 0xCF => GFNI,
            _ => OTHER,
        },
        0xB8 if rep == 0xF3 => POPCNT,
        // with these two an older processor runs BSF and BSR instead; compilers emit the first
        // for both on purpose
        0xBD if rep == 0xF3 => LZCNT,
        0xD0 if p66 || rep == 0xF2 => SSE3,
        0x7C | 0x7D if p66 || rep == 0xF2 => SSE3,
        0xF0 if rep == 0xF2 => SSE3,
        0x12 if rep != 0 => SSE3,
        0x16 if rep == 0xF3 => SSE3,
        _ => 0,
    }
}

fn vex(map: u8, w: bool, l: bool, pp: u8, op: u8, reg: bool) -> u64 {
    let wide = |x: u64| if l { AVX2 } else { x };
    match map {
        1 => {
            if within(op, &[(0x41, 0x42), (0x44, 0x47)]) {
                return match (pp, w) {
                    (0, false) => F,
                    (1, false) => F | DQ,
                    _ => F | BW,
                };
            }
            match op {
                0x4A => return if w { F | BW } else { F | DQ },
                0x4B => return if pp == 1 && !w { F } else { F | BW },
                0x90 | 0x91 => return match (pp, w) { (0, false) => F, (1, false) => F | DQ, _ => F | BW },
                0x92 | 0x93 => return match pp { 0 => F, 1 => F | DQ, _ => F | BW },
                0x98 => return match (pp, w) { (0, false) => F, (1, false) => F | DQ, _ => F | BW },
                0x99 => return if w { F | BW } else { F | DQ },
                _ => {}
            }
            if int_map1(op) && pp != 0 {
                wide(AVX)
            } else {
                AVX
            }
        }
        2 => match op {
            0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x41 => wide(AVX),
            0x0C..=0x0F | 0x17 | 0x1A | 0x2C..=0x2F => AVX,
            0x18 | 0x19 => if reg { AVX2 } else { AVX },
            0x13 => F16C,
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5A | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93 => AVX2,
            0x50..=0x53 => AVXVNNI,
            0x96..=0x9F | 0xA6..=0xAF | 0xB6..=0xBF => FMA,
            0xCF => GFNI,
            0xDB..=0xDF => if l { VAES } else { OTHER },
            0xF2 | 0xF3 => BMI1,
            0xF5 | 0xF6 => BMI2,
            0xF7 => if pp == 0 { BMI1 } else { BMI2 },
            _ => OTHER,
        },
        3 => match op {
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => AVX2,
            0x0E | 0x0F | 0x42 | 0x4C => wide(AVX),
            0x04..=0x06 | 0x08..=0x0D | 0x14..=0x19 | 0x20..=0x22 | 0x40 | 0x41 | 0x4A | 0x4B | 0x60..=0x63 => AVX,
            0x1D => F16C,
            0x30 | 0x32 => if w { F } else { F | DQ },
            0x31 | 0x33 => F | BW,
            0x44 => if l { VPCL } else { OTHER },
            0xCE | 0xCF => GFNI,
            0xF0 => BMI2,
            _ => OTHER,
        },
        _ => OTHER,
    }
}

fn evex(map: u8, w: bool, ll: u8, pp: u8, op: u8, modrm: u8, b: bool) -> u64 {
    let reg = modrm >> 6 == 3;
    let mut x = F;
    // pp: 0 none, 1 66, 2 F3, 3 F2
    let scalar = match map {
        1 => {
            (pp >= 2 && is(op, &[0x10, 0x11, 0x2A, 0x2C, 0x2D, 0x51, 0x58, 0x59, 0x5A, 0x5C, 0x5D, 0x5E, 0x5F, 0x78, 0x79, 0x7B, 0xC2]) && !(pp == 2 && op == 0x7B && false))
                || is(op, &[0x2E, 0x2F, 0x6E, 0xD6, 0xC4, 0xC5, 0x12, 0x13, 0x16, 0x17])
                || (op == 0x7E && pp != 0)
        }
        2 => is(op, &[0x2D, 0x43, 0x4D, 0x4F, 0x99, 0x9B, 0x9D, 0x9F, 0xA9, 0xAB, 0xAD, 0xAF, 0xB9, 0xBB, 0xBD, 0xBF]),
        3 => is(op, &[0x0A, 0x0B, 0x14, 0x15, 0x16, 0x17, 0x20, 0x21, 0x22, 0x27, 0x51, 0x55, 0x57, 0x67]),
        _ => false,
    };
    // with a register operand and the b bit set, the length bits are a rounding mode
    if !scalar && ll != 2 && !(reg && b) {
        x |= VL;
    }
    x | match map {
        1 => match op {
            0x60 | 0x61 | 0x63..=0x65 | 0x67..=0x69 | 0x6B | 0x71 | 0x74 | 0x75 | 0xD1 | 0xD5 | 0xD8..=0xDA | 0xDC..=0xDE
            | 0xE0 | 0xE1 | 0xE3..=0xE5 | 0xE8..=0xEA | 0xEC..=0xEE | 0xF1 | 0xF5 | 0xF6 | 0xF8 | 0xF9 | 0xFC | 0xFD | 0xC4 | 0xC5 => BW,
            0x70 if pp >= 2 => BW,
            0x6F | 0x7F if pp == 3 => BW,
            0x73 if is(modrm >> 3 & 7, &[3, 7]) => BW,
            0x54..=0x57 => DQ,
            0x78 | 0x79 | 0x7A | 0x7B if pp == 1 => DQ,
            0x5B if w => DQ,
            0xE6 if pp == 2 && w => DQ,
            0x7A if pp == 3 && w => DQ,
            _ => 0,
        },
        2 => match op {
            0x00 | 0x04 | 0x0B | 0x1C | 0x1D | 0x2B | 0x3C | 0x3E | 0x66 | 0x78 | 0x79 | 0x7A | 0x7B => if op == 0x7B && false { 0 } else { BW },
            0x7C => 0,
            0x10 | 0x20 | 0x30 => if op == 0x10 && pp == 1 { BW } else { BW },
            0x11 | 0x12 if pp == 1 && w => BW,
            0x26 | 0x28 | 0x29 if op == 0x26 && !matches!(pp, 0) => BW,
            0x28 | 0x29 if pp == 2 => BW,
            0x38 | 0x39 if pp == 2 => DQ,
            0x38 | 0x3A if pp == 1 => BW,
            0x2A | 0x3A if pp == 2 => CD,
            0x75 | 0x7D | 0x8D => if w { BW } else { VBMI },
            0x83 => VBMI,
            0x52 if pp == 2 => BF16,
            0x72 if pp >= 2 => BF16,
            0x50..=0x53 if pp == 1 => VNNI,
            0x40 if w => DQ,
            0x44 | 0xC4 => CD,
            0x54 => BITALG,
            0x55 => VPOP,
            0x62 | 0x63 | 0x70..=0x73 => VBMI2,
            0x8F => BITALG,
            0xB4 | 0xB5 => IFMA,
            0xCF => GFNI,
            0xDC..=0xDF => VAES,
            0x19 | 0x59 | 0x1B | 0x5B if !w => DQ,
            0x1A | 0x5A if w => DQ,
            _ => 0,
        },
        3 => match op {
            0x0F | 0x3E | 0x3F | 0x42 | 0x14 | 0x15 | 0x20 => BW,
            0x16 | 0x22 | 0x50 | 0x51 | 0x56 | 0x57 | 0x66 | 0x67 => DQ,
            0x18 | 0x19 | 0x38 | 0x39 if w => DQ,
            0x1A | 0x1B | 0x3A | 0x3B if !w => DQ,
            0x70..=0x73 => VBMI2,
            0x44 => VPCL,
            0xCE | 0xCF => GFNI,
            _ => 0,
        },
        5 | 6 => FP16,
        _ => OTHER,
    }
}

// ---------------------------------------------------------------- the stepper

static ALLOWED: AtomicU64 = AtomicU64::new(u64::MAX);
static TEXT_LO: AtomicUsize = AtomicUsize::new(0);
static TEXT_HI: AtomicUsize = AtomicUsize::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static OWN_STEPS: AtomicU64 = AtomicU64::new(0);
/// extensions seen executing
pub static SEEN: AtomicU64 = AtomicU64::new(0);
static BAD_RIP: AtomicUsize = AtomicUsize::new(0);
static BAD_NEED: AtomicU64 = AtomicU64::new(0);
static READY: AtomicBool = AtomicBool::new(false);

const SLOTS: usize = 1 << 18;
/// per slot: address of a decoded instruction and what it needs
static KEYS: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static VALS: [AtomicU32; SLOTS] = [const { AtomicU32::new(0) }; SLOTS];
pub static DISTINCT: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_trap(_: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        if (*info).si_code == libc::SI_KERNEL {
            // a breakpoint instruction
            if tripped(rip - 1) {
                (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] = (rip - 1) as i64;
                return;
            }
            libc::_exit(71);
        }
        STEPS.store(STEPS.load(Relaxed) + 1, Relaxed);
        if rip < TEXT_LO.load(Relaxed) || rip >= TEXT_HI.load(Relaxed) {
            return;
        }
        OWN_STEPS.store(OWN_STEPS.load(Relaxed) + 1, Relaxed);
        let mut h = rip.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 18);
        let mut need = u64::MAX;
        for _ in 0..64 {
            let k = KEYS[h].load(Relaxed);
            if k == rip {
                need = VALS[h].load(Relaxed) as u64;
                break;
            }
            if k == 0 {
                need = needs(rip as *const u8);
                VALS[h].store(need as u32, Relaxed);
                KEYS[h].store(rip, Relaxed);
                DISTINCT.fetch_add(1, Relaxed);
                break;
            }
            h = (h + 1) & (SLOTS - 1);
        }
        if need == u64::MAX {
            need = needs(rip as *const u8);
        }
        SEEN.store(SEEN.load(Relaxed) | need, Relaxed);
        if need & !ALLOWED.load(Relaxed) != 0 && BAD_RIP.load(Relaxed) == 0 {
            BAD_RIP.store(rip, Relaxed);
            BAD_NEED.store(need & !ALLOWED.load(Relaxed), Relaxed);
        }
    }
}

fn text_of_self() -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let me = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let (mut lo, mut hi) = (usize::MAX, 0);
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() >= 6 && f[1].contains('x') && l.ends_with(&me) {
            let (a, b) = f[0].split_once('-').unwrap();
            lo = lo.min(usize::from_str_radix(a, 16).unwrap());
            hi = hi.max(usize::from_str_radix(b, 16).unwrap());
        }
    }
    (lo, hi)
}

pub fn init() {
    if READY.swap(true, SeqCst) {
        return;
    }
    let (lo, hi) = text_of_self();
    TEXT_LO.store(lo, SeqCst);
    TEXT_HI.store(hi, SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

#[inline(never)]
fn trap_on() {
    unsafe { std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq") }
}
#[inline(never)]
fn trap_off() {
    unsafe { std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq") }
}

// ---------------------------------------------------------------- the tripwires

/// An instruction of the library that needs an extension: where it is, its first byte, its needs.
struct Wire {
    at: usize,
    byte: u8,
    need: u64,
}
static WIRES: std::sync::OnceLock<Vec<Wire>> = std::sync::OnceLock::new();
/// What is allowed where the wires are now (all: none is armed); 1 << 62: unknown.
static ARMED: AtomicU64 = AtomicU64::new(u64::MAX);
const DIRTY: u64 = 1 << 62;

/// Called in the signal handler, on whichever thread ran into the wire.
unsafe fn tripped(at: usize) -> bool {
    let Some(w) = WIRES.get() else { return false };
    let Ok(k) = w.binary_search_by_key(&at, |w| w.at) else { return false };
    let bad = w[k].need & !ALLOWED.load(SeqCst);
    if bad != 0 && BAD_RIP.load(SeqCst) == 0 {
        BAD_RIP.store(at, SeqCst);
        BAD_NEED.store(bad, SeqCst);
    }
    (at as *mut u8).write_volatile(w[k].byte);
    ARMED.store(DIRTY, SeqCst);
    true
}

/// Finds every instruction of the library's functions that needs an extension (a disassembler
/// gives the instruction boundaries) and makes the code writable. Returns how many there are.
pub fn wires() -> usize {
    init();
    WIRES
        .get_or_init(|| {
            let mut v = vec![];
            let Ok(out) = std::process::Command::new("objdump")
                .args(["-d", "--no-show-raw-insn", "-w", "/proc/self/exe"].map(|a| {
                    if a == "/proc/self/exe" { std::fs::read_link(a).unwrap_or_default().into_os_string() } else { a.into() }
                }))
                .stderr(std::process::Stdio::null())
                .output()
            else {
                return v;
            };
            let (lo, hi) = (TEXT_LO.load(SeqCst), TEXT_HI.load(SeqCst));
            let bias = bias();
            let mut inside = false;
            for l in out.stdout.split(|&b| b == b'\n') {
                if l.last() == Some(&b':') && l.first().is_some_and(|b| b.is_ascii_hexdigit()) {
                    let s = String::from_utf8_lossy(l);
                    inside = s.contains("pic_scale") || s.contains("core_arch");
                    continue;
                }
                if !inside {
                    continue;
                }
                let Some(c) = l.iter().position(|&b| b == b':') else { continue };
                let Ok(a) = std::str::from_utf8(&l[..c]) else { continue };
                let Ok(a) = usize::from_str_radix(a.trim(), 16) else { continue };
                let at = a + bias;
                if at < lo || at + 16 >= hi {
                    continue;
                }
                let need = unsafe { needs(at as *const u8) };
                if need != 0 {
                    v.push(Wire { at, byte: unsafe { *(at as *const u8) }, need });
                }
            }
            v.sort_by_key(|w| w.at);
            let p = lo & !4095;
            if unsafe { libc::mprotect(p as _, hi - p, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) } != 0 {
                return vec![];
            }
            v
        })
        .len()
}
/// Lays a breakpoint on every instruction that needs more than `allowed`, and none elsewhere.
/// The library must not be running. Returns how many are armed.
pub fn arm(allowed: u64) -> usize {
    let Some(w) = WIRES.get() else { return 0 };
    ALLOWED.store(allowed, SeqCst);
    BAD_RIP.store(0, SeqCst);
    static N: AtomicUsize = AtomicUsize::new(0);
    if ARMED.swap(allowed, SeqCst) != allowed {
        let mut n = 0;
        for w in w {
            let b = if w.need & !allowed != 0 {
                n += 1;
                0xCC
            } else {
                w.byte
            };
            unsafe {
                let p = w.at as *mut u8;
                if p.read_volatile() != b {
                    p.write_volatile(b);
                }
            }
        }
        N.store(n, SeqCst);
    }
    N.load(SeqCst)
}
/// The first wire run into since they were armed: (address, extensions not reported).
pub fn hit() -> Option<(usize, u64)> {
    let b = BAD_RIP.load(SeqCst);
    if b != 0 { Some((b, BAD_NEED.load(SeqCst))) } else { None }
}

/// Extensions of a list of feature names.
pub fn mask_of(has: &[&str]) -> u64 {
    EXT.iter().enumerate().filter(|(_, n)| has.contains(n)).fold(0, |m, (i, _)| m | 1 << i)
}
pub fn names(mask: u64) -> String {
    EXT.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, n)| *n).collect::<Vec<_>>().join("+")
}

pub struct Seen {
    pub steps: u64,
    pub own: u64,
    pub seen: u64,
    /// (address, extensions not reported)
    pub bad: Option<(usize, u64)>,
}

/// Runs `f` one instruction at a time.
pub fn watch<R>(allowed: u64, f: impl FnOnce() -> R) -> (R, Seen) {
    init();
    arm(u64::MAX);
    ALLOWED.store(allowed, SeqCst);
    BAD_RIP.store(0, SeqCst);
    SEEN.store(0, SeqCst);
    let (s0, o0) = (STEPS.load(SeqCst), OWN_STEPS.load(SeqCst));
    trap_on();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    trap_off();
    let r = match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    let b = BAD_RIP.load(SeqCst);
    (
        r,
        Seen {
            steps: STEPS.load(SeqCst) - s0,
            own: OWN_STEPS.load(SeqCst) - o0,
            seen: SEEN.load(SeqCst),
            bad: if b != 0 { Some((b, BAD_NEED.load(SeqCst))) } else { None },
        },
    )
}

/// Where this executable was loaded, relative to its addresses on disk.
fn bias() -> usize {
    let Ok(data) = std::fs::read("/proc/self/exe") else { return 0 };
    let u64at = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
    if u16::from_le_bytes(data[16..18].try_into().unwrap()) == 2 { 0 } else { unsafe { libc::getauxval(libc::AT_PHDR) as usize - u64at(0x20) as usize } }
}

/// Name of the function an address of this executable lies in.
pub fn symbol(addr: usize) -> String {
    let Ok(data) = std::fs::read("/proc/self/exe") else { return String::new() };
    let u64at = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
    let u32at = |o: usize| u32::from_le_bytes(data[o..o + 4].try_into().unwrap());
    let u16at = |o: usize| u16::from_le_bytes(data[o..o + 2].try_into().unwrap());
    let bias = if u16at(16) == 2 { 0 } else { unsafe { libc::getauxval(libc::AT_PHDR) as usize - u64at(0x20) as usize } };
    let a = addr - bias;
    let shoff = u64at(0x28) as usize;
    let mut best = String::new();
    for s in 0..u16at(0x3C) as usize {
        let h = shoff + s * u16at(0x3A) as usize;
        if u32at(h + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64at(h + 0x18) as usize, u64at(h + 0x20) as usize, u32at(h + 0x28) as usize);
        let stroff = u64at(shoff + link * u16at(0x3A) as usize + 0x18) as usize;
        for e in (off..off + size).step_by(24) {
            let (v, n) = (u64at(e + 8) as usize, u64at(e + 16) as usize);
            if a >= v && a < v + n {
                let nm = u32at(e) as usize + stroff;
                let end = data[nm..].iter().position(|&b| b == 0).unwrap() + nm;
                best = String::from_utf8_lossy(&data[nm..end]).into_owned();
            }
        }
    }
    best
}
