//! Memory monitors: image buffers placed against inaccessible pages, and an allocator that does
//! the same to every temporary of the library, poisons fresh memory, and keeps accounts.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub const PAGE: usize = 4096;

// ---------------------------------------------------------------- image arenas

/// A reusable buffer between two inaccessible pages.
pub struct Arena {
    base: *mut u8,
    pages: usize,
}
unsafe impl Send for Arena {}

/// Where in an arena the bytes of an image lie.
#[derive(Clone, Copy)]
pub struct Placed {
    pub ptr: *mut u8,
    pub len: usize,
    lo: *mut u8,
    hi: *mut u8,
}

const CANARY: u8 = 0xC7;

impl Arena {
    pub const fn empty() -> Arena {
        Arena { base: std::ptr::null_mut(), pages: 0 }
    }
    fn ensure(&mut self, bytes: usize) {
        let need = bytes.div_ceil(PAGE).max(1) + 1;
        if need <= self.pages {
            return;
        }
        unsafe {
            if !self.base.is_null() {
                libc::munmap(self.base.sub(PAGE) as _, (self.pages + 2) * PAGE);
            }
            let pages = need.next_power_of_two();
            let p = libc::mmap(
                std::ptr::null_mut(),
                (pages + 2) * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "arena mmap");
            if pages > 1 << 14 {
                // little of it will be touched
                libc::madvise(p, (pages + 2) * PAGE, libc::MADV_NOHUGEPAGE);
            }
            self.base = (p as *mut u8).add(PAGE);
            self.pages = pages;
            assert_eq!(libc::mprotect(self.base as _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE), 0);
        }
    }
    /// Room for `len` bytes ending exactly at (or, `front`, starting exactly at) a guard page.
    pub fn place(&mut self, len: usize, front: bool) -> Placed {
        self.ensure(len + 64);
        unsafe {
            libc::mprotect(self.base as _, self.pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            let end = self.base.add(self.pages * PAGE);
            let ptr = if front { self.base } else { end.sub(len) };
            // canaries on the unguarded side
            let (lo, hi) = if front {
                let room = (self.pages * PAGE - len).min(512);
                (ptr.add(len), ptr.add(len + room))
            } else {
                let room = (self.pages * PAGE - len).min(512);
                (ptr.sub(room), ptr)
            };
            std::ptr::write_bytes(lo, CANARY, hi as usize - lo as usize);
            Placed { ptr, len, lo, hi }
        }
    }
    pub fn release(&mut self) {
        if !self.base.is_null() {
            unsafe { libc::munmap(self.base.sub(PAGE) as _, (self.pages + 2) * PAGE) };
            *self = Arena::empty();
        }
    }
    pub fn read_only(&self) {
        unsafe {
            libc::mprotect(self.base as _, self.pages * PAGE, libc::PROT_READ);
        }
    }
    pub fn writable(&self) {
        unsafe {
            libc::mprotect(self.base as _, self.pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        }
    }
}

impl Placed {
    pub fn canary_ok(&self) -> bool {
        unsafe {
            let n = self.hi as usize - self.lo as usize;
            std::slice::from_raw_parts(self.lo, n).iter().all(|&b| b == CANARY)
        }
    }
}

// ---------------------------------------------------------------- allocator

/// Modes of the allocator.
pub static FENCE: AtomicBool = AtomicBool::new(false);
pub static FENCE_FRONT: AtomicBool = AtomicBool::new(false);
/// Byte written over fresh (non-zeroed) memory while accounting is on.
pub static POISON: AtomicU8 = AtomicU8::new(0);
pub static ACCOUNT: AtomicBool = AtomicBool::new(false);

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static FENCED: AtomicU64 = AtomicU64::new(0);
pub static LARGEST: AtomicU64 = AtomicU64::new(0);

const REGION: usize = 1 << 40;
static REGION_BASE: AtomicUsize = AtomicUsize::new(0);
static REGION_NEXT: AtomicUsize = AtomicUsize::new(0);

pub struct Watch;

fn region_base() -> usize {
    let b = REGION_BASE.load(Acquire);
    if b != 0 {
        return b;
    }
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            REGION,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            return 0;
        }
        match REGION_BASE.compare_exchange(0, p as usize, AcqRel, Acquire) {
            Ok(_) => p as usize,
            Err(other) => {
                libc::munmap(p, REGION);
                other
            }
        }
    }
}

fn fenced(p: *mut u8) -> bool {
    let b = REGION_BASE.load(Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + REGION
}

unsafe fn fence_alloc(l: Layout) -> *mut u8 {
    let base = region_base();
    if base == 0 {
        return System.alloc(l);
    }
    let pages = l.size().div_ceil(PAGE).max(1);
    let slot = (pages + 1) * PAGE;
    let off = REGION_NEXT.fetch_add(slot, Relaxed);
    if off + slot > REGION {
        return System.alloc(l);
    }
    // [data pages][guard], the page before is the previous slot's guard (first: never used)
    let start = base + off;
    if off == 0 {
        // leave one guard page at the very start
        return fence_alloc(l);
    }
    if libc::mprotect(start as _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return System.alloc(l);
    }
    FENCED.fetch_add(1, Relaxed);
    if FENCE_FRONT.load(Relaxed) {
        start as *mut u8
    } else {
        ((start + pages * PAGE - l.size()) & !(l.align() - 1)) as *mut u8
    }
}

unsafe fn fence_free(p: *mut u8, l: Layout) {
    let start = (p as usize) & !(PAGE - 1);
    let pages = l.size().div_ceil(PAGE).max(1);
    // keep the address range dead: a use after free faults
    libc::mmap(
        start as _,
        pages * PAGE,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
        -1,
        0,
    );
}

fn count(l: Layout) {
    if ACCOUNT.load(Relaxed) {
        ALLOCS.fetch_add(1, Relaxed);
        let v = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        PEAK.fetch_max(v, Relaxed);
        LARGEST.fetch_max(l.size() as u64, Relaxed);
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l);
        let p = if FENCE.load(Relaxed) && l.size() >= 16 { fence_alloc(l) } else { System.alloc(l) };
        let poison = POISON.load(Relaxed);
        if poison != 0 && !p.is_null() {
            std::ptr::write_bytes(p, poison, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l);
        if FENCE.load(Relaxed) && l.size() >= 16 {
            // fresh pages of the region are zero
            let p = fence_alloc(l);
            if !fenced(p) && !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACCOUNT.load(Relaxed) {
            FREES.fetch_add(1, Relaxed);
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        if fenced(p) {
            fence_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Reset the fence region between cases when it has grown.
pub fn fence_used() -> usize {
    REGION_NEXT.load(Relaxed)
}

/// Threads started by this process.
pub static STARTED: AtomicU64 = AtomicU64::new(0);

/// Stands before the C library's function of this name, counts, and calls it.
#[cfg(not(any(psv_system_alloc, miri)))]
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    x: *mut libc::c_void,
) -> libc::c_int {
    type Real = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
        *mut libc::c_void,
    ) -> libc::c_int;
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let mut r = REAL.load(Relaxed);
    if r == 0 {
        r = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        REAL.store(r, Relaxed);
    }
    STARTED.fetch_add(1, SeqCst);
    std::mem::transmute::<usize, Real>(r)(t, a, f, x)
}
