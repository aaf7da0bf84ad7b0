//! What a request gives as the very first call of a process: a process forked before the library
//! was used forks a child for every question.
use crate::case::Case;
use crate::exec::{exec, Out};
use crate::pict::picture;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

static LINE: Mutex<Option<(File, File)>> = Mutex::new(None);

fn pipe() -> (File, File) {
    let mut f = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(f.as_mut_ptr()), 0, "pipe");
        (File::from_raw_fd(f[0]), File::from_raw_fd(f[1]))
    }
}
fn dies_with_parent() {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
}
fn put(f: &mut File, code: u8, b: &[u8]) {
    let mut m = vec![code];
    m.extend_from_slice(&(b.len() as u32).to_le_bytes());
    m.extend_from_slice(b);
    let _ = f.write_all(&m);
}
fn get(f: &mut File) -> Option<(u8, Vec<u8>)> {
    let mut h = [0u8; 5];
    f.read_exact(&mut h).ok()?;
    let mut b = vec![0u8; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
    f.read_exact(&mut b).ok()?;
    Some((h[0], b))
}

/// What a call came to, without what only the monitors care about.
#[derive(PartialEq, Clone)]
pub enum Came {
    Picture(Vec<u8>),
    Refused(usize),
    Fault(String),
}
pub fn came(r: Out) -> Came {
    match (&r.panic, r.res) {
        (None, Err(e)) => Came::Refused(e),
        _ => match r.fault() {
            Some(f) => Came::Fault(f),
            None => Came::Picture(r.raw),
        },
    }
}

fn first_call(c: &Case) -> (u8, Vec<u8>) {
    match came(exec(c, &picture(c))) {
        Came::Picture(p) => (0, p),
        Came::Refused(e) => (1, (e as u64).to_le_bytes().to_vec()),
        Came::Fault(f) => (2, f.into_bytes()),
    }
}
pub fn start() {
    start_with(first_call)
}

/// To be called while the process has one thread and has not used the library.
pub fn start_with(job: fn(&Case) -> (u8, Vec<u8>)) {
    let mut line = LINE.lock().unwrap();
    if line.is_some() {
        return;
    }
    // the feature detection happens once per process whoever asks first
    crate::cpu::available();
    let (qr, qw) = pipe();
    let (ar, aw) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid > 0 {
        *line = Some((qw, ar));
        return;
    }
    drop((qw, ar));
    dies_with_parent();
    let (mut qr, mut aw) = (qr, aw);
    while let Some((_, q)) = get(&mut qr) {
        let kid = unsafe { libc::fork() };
        if kid == 0 {
            dies_with_parent();
            let c = Case::parse(&String::from_utf8_lossy(&q)).expect("case");
            let (k, b) = job(&c);
            put(&mut aw, k, &b);
            unsafe { libc::_exit(0) };
        }
        let mut st = 0;
        unsafe { libc::waitpid(kid, &mut st, 0) };
        if st != 0 {
            put(&mut aw, 2, format!("the process died (status {st:#x})").as_bytes());
        }
    }
    unsafe { libc::_exit(0) };
}

pub fn ask_raw(c: &Case) -> (u8, Vec<u8>) {
    let mut line = LINE.lock().unwrap();
    let (q, a) = line.as_mut().expect("started");
    put(q, 0, c.to_string().as_bytes());
    get(a).expect("the process that starts fresh ones is gone")
}
pub fn ask(c: &Case) -> Came {
    match ask_raw(c) {
        (0, p) => Came::Picture(p),
        (1, e) => Came::Refused(u64::from_le_bytes(e[..8].try_into().unwrap()) as usize),
        (_, f) => Came::Fault(String::from_utf8_lossy(&f).into_owned()),
    }
}
