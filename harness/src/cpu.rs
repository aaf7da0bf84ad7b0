//! Restricts the CPU features the process reports to what a given real processor family reports,
//! by editing the cache of the standard library's run-time feature detection (found through the
//! symbol table of this executable). The library under test then takes the dispatch decisions it
//! would take on that processor.
use std::sync::OnceLock;

macro_rules! probes {
    ($($n:tt),*) => {
        pub const FEATURES: &[&str] = &[$($n),*];
        pub fn probe(i: usize) -> bool {
            let mut k = 0;
            $( if k == i { return std::arch::is_x86_feature_detected!($n); } k += 1; )*
            let _ = k;
            false
        }
    };
}
probes!(
    "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "fma", "f16c", "bmi1", "bmi2",
    "lzcnt", "avxvnni", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi",
    "avx512vbmi2", "avx512vnni", "avx512ifma", "avx512bitalg", "avx512vpopcntdq", "avx512bf16",
    "avx512fp16", "gfni", "vaes", "vpclmulqdq"
);

pub struct Model {
    pub name: &'static str,
    pub has: &'static [&'static str],
}

const V2: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"];

/// Processor families, narrow to wide. Each is the feature set of a processor that was sold.
pub const MODELS: &[Model] = &[
    Model { name: "baseline", has: &["sse3"] },
    Model { name: "penryn-sse4.1", has: &["sse3", "ssse3", "sse4.1"] },
    Model { name: "nehalem-sse4.2", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"] },
    Model { name: "sandybridge-avx", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx"] },
    Model { name: "ivybridge-f16c", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c"] },
    Model { name: "piledriver-fma", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "bmi1", "lzcnt"] },
    Model { name: "via-avx2-nofma", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "bmi1", "bmi2"] },
    Model { name: "haswell-avx2", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt"] },
    Model { name: "alderlake-avxvnni", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avxvnni", "gfni", "vaes", "vpclmulqdq"] },
    Model { name: "skylakex-avx512bw", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl"] },
    Model { name: "cascadelake-vnni", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vnni"] },
    Model { name: "cannonlake-vbmi", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi", "avx512ifma"] },
    Model { name: "icelake-vbmi-vnni", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi", "avx512ifma", "avx512vbmi2", "avx512vnni", "avx512bitalg", "avx512vpopcntdq", "gfni", "vaes", "vpclmulqdq"] },
    Model { name: "sapphirerapids", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avxvnni", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi", "avx512ifma", "avx512vbmi2", "avx512vnni", "avx512bitalg", "avx512vpopcntdq", "avx512bf16", "avx512fp16", "gfni", "vaes", "vpclmulqdq"] },
];
/// Xeon Phi: AVX-512F without BW.
pub const KNL: Model = Model { name: "knl-avx512f", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "fma", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512cd"] };
/// Zhaoxin: AVX2 and half-float conversion without fused multiplication.
pub const ZX: Model = Model { name: "zhaoxin-avx2-f16c-nofma", has: &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "f16c", "bmi1", "bmi2", "lzcnt"] };

pub fn nmodels() -> usize {
    MODELS.len() + 2
}
pub fn model(i: usize) -> &'static Model {
    if i < MODELS.len() {
        &MODELS[i]
    } else if i == MODELS.len() {
        &KNL
    } else {
        &ZX
    }
}

struct Mask {
    cache: *mut u64,
    full: [u64; 3],
    /// per FEATURES entry: (word, bit) in the cache
    bits: Vec<Option<(usize, u32)>>,
    host: Vec<bool>,
}
unsafe impl Send for Mask {}
unsafe impl Sync for Mask {}
static MASK: OnceLock<Option<Mask>> = OnceLock::new();

fn find_cache() -> Option<usize> {
    let data = std::fs::read("/proc/self/exe").ok()?;
    let u64at = |o: usize| -> u64 { u64::from_le_bytes(data[o..o + 8].try_into().unwrap()) };
    let u32at = |o: usize| -> u32 { u32::from_le_bytes(data[o..o + 4].try_into().unwrap()) };
    let u16at = |o: usize| -> u16 { u16::from_le_bytes(data[o..o + 2].try_into().unwrap()) };
    let etype = u16at(16);
    let shoff = u64at(0x28) as usize;
    let shentsize = u16at(0x3A) as usize;
    let shnum = u16at(0x3C) as usize;
    let mut found = None;
    for s in 0..shnum {
        let h = shoff + s * shentsize;
        if u32at(h + 4) != 2 {
            continue;
        }
        let off = u64at(h + 0x18) as usize;
        let size = u64at(h + 0x20) as usize;
        let link = u32at(h + 0x28) as usize;
        let stroff = u64at(shoff + link * shentsize + 0x18) as usize;
        for e in (off..off + size).step_by(24) {
            let name = u32at(e) as usize + stroff;
            let end = data[name..].iter().position(|&b| b == 0)? + name;
            let nm = &data[name..end];
            let nm = std::str::from_utf8(nm).unwrap_or("");
            if nm.contains("std_detect") && nm.contains("cache") && nm.contains("5CACHE") && !nm.contains("detect_and") {
                found = Some(u64at(e + 8) as usize);
            }
        }
    }
    let v = found?;
    if etype == 2 {
        return Some(v);
    }
    // position independent: add the load base, taken from the program headers' AT_PHDR
    let phoff = u64at(0x20) as usize;
    let phdr = unsafe { libc::getauxval(libc::AT_PHDR) } as usize;
    Some(v + phdr - phoff)
}

fn init() -> Option<Mask> {
    let host: Vec<bool> = (0..FEATURES.len()).map(probe).collect();
    let cache = find_cache()? as *mut u64;
    let mut full = [0u64; 3];
    unsafe {
        for (i, f) in full.iter_mut().enumerate() {
            *f = cache.add(i).read_volatile();
            if *f >> 63 != 1 {
                return None;
            }
        }
        let mut bits = vec![None; FEATURES.len()];
        for w in 0..3 {
            for b in 0..63u32 {
                if full[w] & (1 << b) == 0 {
                    continue;
                }
                cache.add(w).write_volatile(full[w] & !(1 << b));
                for i in 0..FEATURES.len() {
                    if host[i] && !probe(i) {
                        bits[i] = Some((w, b));
                    }
                }
                cache.add(w).write_volatile(full[w]);
            }
        }
        for i in 0..FEATURES.len() {
            if host[i] && bits[i].is_none() && !statically(FEATURES[i]) {
                return None;
            }
        }
        Some(Mask { cache, full, bits, host })
    }
}

fn statically(f: &str) -> bool {
    // compiled-in features cannot be masked (only happens in instrumented builds)
    match f {
        "sse3" => cfg!(target_feature = "sse3"),
        "ssse3" => cfg!(target_feature = "ssse3"),
        "sse4.1" => cfg!(target_feature = "sse4.1"),
        "sse4.2" => cfg!(target_feature = "sse4.2"),
        "avx" => cfg!(target_feature = "avx"),
        "avx2" => cfg!(target_feature = "avx2"),
        _ => false,
    }
}

fn mask() -> Option<&'static Mask> {
    MASK.get_or_init(init).as_ref()
}

/// Whether feature masking works in this build.
pub fn available() -> bool {
    mask().is_some()
}

/// Models this host can play, narrow to wide.
pub fn usable_models() -> Vec<usize> {
    match mask() {
        None => vec![],
        Some(m) => (0..nmodels())
            .filter(|&k| {
                model(k).has.iter().all(|f| {
                    let i = FEATURES.iter().position(|x| x == f).unwrap();
                    m.host[i]
                })
            })
            .collect(),
    }
}

/// Play processor `k` (usize::MAX: the host as it is).
pub fn set(k: usize) {
    let Some(m) = mask() else { return };
    let mut w = m.full;
    if k != usize::MAX {
        let md = model(k);
        for (i, b) in m.bits.iter().enumerate() {
            if let Some((word, bit)) = b {
                if !md.has.contains(&FEATURES[i]) {
                    w[*word] &= !(1 << bit);
                }
            }
        }
    }
    unsafe {
        for (i, v) in w.iter().enumerate() {
            std::sync::atomic::AtomicU64::from_ptr(m.cache.add(i)).store(*v, std::sync::atomic::Ordering::SeqCst);
        }
    }
}

pub fn name(k: usize) -> String {
    if k == usize::MAX { "host".into() } else { model(k).name.into() }
}

#[allow(dead_code)]
pub fn v2() -> &'static [&'static str] {
    V2
}
