//! The file system seen by the code under test: `open`, `mkdir`, `read` and `write` as called by the
//! standard library are defined here, so that a check can be asked before each call made within
//! `armed` and can let it pass, fail it, shorten it - or act as another process just before it.
use crate::explore::X;
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Open,
    Mkdir,
    Write,
    Read,
}

#[derive(Debug)]
pub struct Op {
    pub call: Call,
    pub path: PathBuf,
    pub fd: c_int,
    pub flags: c_int,
    pub len: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Pass,
    Fail(c_int),
    /// transfer at most this much
    Short(usize),
}

type Handler = Box<dyn FnMut(&Op) -> Act>;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
}

struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
        HANDLER.with(|h| h.borrow_mut().take());
    }
}

/// Run `body` with `handler` asked before every call of this thread.
pub fn armed<'a, T>(handler: impl FnMut(&Op) -> Act + 'a, body: impl FnOnce() -> T) -> T {
    let b: Box<dyn FnMut(&Op) -> Act + 'a> = Box::new(handler);
    // sound: the guard drops it before `armed` returns
    let b: Handler = unsafe { std::mem::transmute(b) };
    HANDLER.with(|h| *h.borrow_mut() = Some(b));
    let _g = Disarm;
    ON.with(|o| o.set(true));
    body()
}

/// The harness itself at work in the middle of an armed run.
pub fn quietly<T>(body: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(false));
    let r = body();
    ON.with(|o| o.set(was));
    r
}

fn ask(call: Call, path: *const c_char, fd: c_int, flags: c_int, len: usize) -> Act {
    if !ON.with(|o| o.get()) {
        return Act::Pass;
    }
    quietly(|| {
        use std::os::unix::ffi::OsStrExt;
        let path = if path.is_null() { PathBuf::new() } else { PathBuf::from(std::ffi::OsStr::from_bytes(unsafe { CStr::from_ptr(path) }.to_bytes())) };
        let op = Op { call, path, fd, flags, len };
        HANDLER.with(|h| match *h.borrow_mut() {
            Some(ref mut h) => h(&op),
            None => Act::Pass,
        })
    })
}

unsafe fn errno(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match ask(Call::Open, path, -1, flags, 0) {
        Act::Fail(e) => errno(e),
        _ => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    match ask(Call::Mkdir, path, -1, 0, 0) {
        Act::Fail(e) => errno(e),
        _ => libc::syscall(libc::SYS_mkdir, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let n = match ask(Call::Write, std::ptr::null(), fd, 0, n) {
        Act::Fail(e) => return errno(e) as isize,
        Act::Short(k) => k.min(n),
        Act::Pass => n,
    };
    if n == 0 {
        return 0;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let n = match ask(Call::Read, std::ptr::null(), fd, 0, n) {
        Act::Fail(e) => return errno(e) as isize,
        Act::Short(k) => k.min(n),
        Act::Pass => n,
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

// ------------------------------------------------------------------ faults

/// Errors that every call may meet, `EINTR` last where it can be met.
pub fn errors(call: Call) -> &'static [c_int] {
    match call {
        Call::Open => &[libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::EINTR],
        Call::Mkdir => &[libc::ENOSPC, libc::EACCES],
        Call::Write => &[libc::ENOSPC, libc::EIO, libc::EINTR],
        Call::Read => &[libc::EIO, libc::EINTR],
    }
}

/// One alternative per error and shortening; every one but passing costs budget.
pub fn fault(x: &X, op: &Op) -> Act {
    let e = errors(op.call);
    let mut alts = vec![Act::Pass];
    alts.extend(e.iter().map(|&e| Act::Fail(e)));
    if matches!(op.call, Call::Write | Call::Read) {
        if op.len > 1 {
            alts.push(Act::Short(1));
        }
        if op.len > 3 {
            alts.push(Act::Short(op.len / 2));
        }
        if op.call == Call::Write && op.len > 0 {
            alts.push(Act::Short(0));
        }
    }
    let a = alts[x.dev(alts.len())];
    if a != Act::Pass {
        x.log(|| format!("  {:?} {:?} of {} bytes: {:?}", op.call, op.path.file_name(), op.len, a));
    }
    a
}

pub fn under(op: &Op, dir: &Path) -> bool {
    op.path.starts_with(dir)
}

pub fn kind(e: c_int) -> std::io::ErrorKind {
    std::io::Error::from_raw_os_error(e).kind()
}
