//! One request to the library, writable as a line of text so that it can be replayed.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    U8,
    U16,
    F32,
    F16,
    Ar30,
    Ra30,
}

impl Fmt {
    pub fn bytes(self) -> usize {
        match self {
            Fmt::U8 => 1,
            Fmt::U16 | Fmt::F16 => 2,
            _ => 4,
        }
    }
    pub fn packed(self) -> bool {
        matches!(self, Fmt::Ar30 | Fmt::Ra30)
    }
    pub fn float(self) -> bool {
        matches!(self, Fmt::F32 | Fmt::F16)
    }
}

/// Which entry points are called.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Plain,
    Generic,
    Lab,
    Luv,
    Lch,
    Xyz,
    Oklab,
    Jzazbz,
    Sigmoid,
    Linear,
    LinearApprox,
}
pub const COLOR_KINDS: &[Kind] = &[
    Kind::Lab,
    Kind::Luv,
    Kind::Lch,
    Kind::Xyz,
    Kind::Oklab,
    Kind::Jzazbz,
    Kind::Sigmoid,
    Kind::Linear,
    Kind::LinearApprox,
];

macro_rules! case {
    ($($(#[$m:meta])* $f:ident : $t:ty = $d:expr),* $(,)?) => {
        #[derive(Clone, PartialEq, Debug)]
        pub struct Case { pub fmt: Fmt, pub kind: Kind, $(pub $f: $t),* }
        impl Default for Case {
            fn default() -> Self { Case { fmt: Fmt::U8, kind: Kind::Plain, $($f: $d),* } }
        }
        impl fmt::Display for Case {
            fn fmt(&self, o: &mut fmt::Formatter) -> fmt::Result {
                write!(o, "fmt={:?} kind={:?}", self.fmt, self.kind)?;
                $( write!(o, " {}={}", stringify!($f), self.$f)?; )*
                Ok(())
            }
        }
        impl Case {
            pub fn parse(s: &str) -> Option<Case> {
                let mut c = Case::default();
                for kv in s.split_whitespace() {
                    let Some((k, v)) = kv.split_once('=') else { continue };
                    match k {
                        "fmt" => c.fmt = match v { "U8" => Fmt::U8, "U16" => Fmt::U16, "F32" => Fmt::F32, "F16" => Fmt::F16, "Ar30" => Fmt::Ar30, "Ra30" => Fmt::Ra30, _ => return None },
                        "kind" => c.kind = match v { "Plain" => Kind::Plain, "Generic" => Kind::Generic, _ => *COLOR_KINDS.iter().find(|k| format!("{k:?}") == v)? },
                        $( stringify!($f) => c.$f = v.parse().ok()?, )*
                        _ => {}
                    }
                }
                Some(c)
            }
        }
    };
}
case! {
    ch: usize = 1,
    depth: usize = 8,
    /// premultiply option
    premul: bool = false,
    filter: u32 = 0,
    sw: usize = 1, sh: usize = 1, dw: usize = 1, dh: usize = 1,
    /// extra elements (bytes for packed formats, multiple of 4) per row
    spad: usize = 0, dpad: usize = 0,
    /// buffer begins at (true) or ends at (false) a guard page
    sfront: bool = false, dfront: bool = false,
    /// 0 single, -1 adaptive, n fixed
    threads: i64 = 0,
    /// speed (true) or quality
    speed: bool = true,
    /// processor played; usize::MAX the host
    cpu: usize = usize::MAX,
    /// what the picture looks like
    content: u32 = 0,
    /// what the alpha channel looks like
    alpha: u32 = 0,
    seed: u64 = 0,
    /// byte the destination is filled with before the call
    dfill: u8 = 0x5A,
    /// network byte order for packed formats
    net: bool = false,
    /// transfer function of the colour scalers
    tf: u32 = 0,
    /// property specific
    x: u64 = 0,
}

impl Case {
    pub fn max(&self) -> f64 {
        match self.fmt {
            Fmt::U8 => 255.0,
            Fmt::U16 => ((1u32 << self.depth) - 1) as f64,
            Fmt::Ar30 | Fmt::Ra30 => 1023.0,
            _ => 1.0,
        }
    }
    /// channels of the unpacked picture
    pub fn planes(&self) -> usize {
        if self.fmt.packed() { 4 } else { self.ch }
    }
    /// what kind of request it is, without sizes and pixels
    pub fn class(&self) -> String {
        format!(
            "{:?}{}{}{} {:?} {}",
            self.fmt,
            if self.fmt.packed() { String::new() } else { format!("x{}", self.ch) },
            if self.fmt == Fmt::U16 { format!("@{}", self.depth) } else { String::new() },
            if self.premul { "+premul" } else { "" },
            self.kind,
            crate::filt::NAMES[self.filter as usize % 49],
        )
    }
}
