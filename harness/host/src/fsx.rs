//! The file-system calls of this process pass through here: what one thread does below one directory is recorded,
//! and can be made to fail, to be cut short, to stop for good (a crash) or to be interleaved with other work.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_uint, c_void, iovec, mode_t, off64_t, off_t, size_t, ssize_t, SYS_close, SYS_copy_file_range, SYS_fdatasync, SYS_fsync, SYS_ftruncate, SYS_linkat, SYS_openat, SYS_pread64, SYS_pwrite64, SYS_read, SYS_renameat2, SYS_sendfile, SYS_unlinkat, SYS_write, SYS_writev};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CStr;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub kind: &'static str, // open create trunc write sync rename unlink link cut other
    pub name: String,       // the file's name at that time ("" for descriptors)
    pub to: String,
    pub file: i64, // number of the open file description's file
    pub at: i64,
    pub len: i64,
    pub ok: bool,
    pub done: i64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// From this operation on nothing reaches the disk; a write in progress gets this many bytes done.
    Die(usize, usize),
    /// This operation fails with an error; a write gets some bytes done first.
    Fail(usize, usize, i32),
    /// This write takes only that many bytes.
    Short(usize, usize),
    /// Before this operation other work is done.
    Meet(usize),
}
pub struct Ctx {
    pub dir: String,
    pub ops: Vec<Op>,
    pub fault: Fault,
    pub hit: bool,
    pub dead: bool,
    pub read_fault: i32, // reads fail
    pub meet: Option<Box<dyn FnMut()>>,
    fds: HashMap<c_int, (i64, i64, String)>, // file, position, name
    files: i64,
    left: i64, // bytes of a broken write that still reach the disk
}
thread_local! { static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) }; }

pub fn start(dir: &str, fault: Fault, meet: Option<Box<dyn FnMut()>>) {
    CTX.with(|c| *c.borrow_mut() = Some(Ctx { dir: dir.into(), ops: vec![], fault, hit: false, dead: false, read_fault: 0, meet, fds: HashMap::new(), files: 0, left: -1 }));
}
pub fn fail_reads(errno: i32) { CTX.with(|c| c.borrow_mut().as_mut().unwrap().read_fault = errno) }
pub fn stop() -> Ctx { CTX.with(|c| c.borrow_mut().take().unwrap()) }

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    CTX.try_with(|c| c.try_borrow_mut().ok().and_then(|mut c| c.as_mut().map(f))).ok().flatten()
}
unsafe fn err(e: i32) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn text(p: *const c_char) -> String {
    if p.is_null() { return String::new(); }
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}
fn below(c: &Ctx, path: &str) -> Option<String> { path.strip_prefix(&c.dir).and_then(|p| p.strip_prefix('/')).map(|s| s.to_string()) }
enum Go { Real, Part(usize), Err(i32) }
/// Decides about an operation that changes the disk.
fn decide(c: &mut Ctx) -> Go {
    if c.dead { return Go::Err(libc::EIO); }
    let n = c.ops.len();
    if c.left >= 0 && !c.hit { c.left = -1; }
    match c.fault {
        Fault::Die(k, m) if k == n => { c.dead = true; c.hit = true; if m > 0 { Go::Part(m) } else { Go::Err(libc::EIO) } }
        Fault::Fail(k, m, e) if k == n => { c.hit = true; c.fault = if m > 0 { Fault::Fail(k + 1, 0, e) } else { Fault::None }; if m > 0 { Go::Part(m) } else { Go::Err(e) } }
        Fault::Short(k, m) if k == n => { c.hit = true; c.fault = Fault::None; Go::Part(m) }
        _ => Go::Real,
    }
}
/// Runs the other work, if its time has come, outside of the recording.
fn meet() {
    let f = with(|c| match c.fault {
        Fault::Meet(k) if k == c.ops.len() && !c.hit => { c.hit = true; c.meet.take() }
        _ => None,
    }).flatten();
    if let Some(mut f) = f {
        let saved = CTX.with(|c| c.borrow_mut().take());
        f();
        CTX.with(|c| *c.borrow_mut() = saved);
    }
}
fn op(kind: &'static str, name: String) -> Op { Op { kind, name, to: String::new(), file: -1, at: 0, len: 0, ok: false, done: 0 } }
unsafe fn do_open(at: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || unsafe { libc::syscall(SYS_openat, at, path, flags, mode as c_uint) as c_int };
    let p = unsafe { text(path) };
    let Some(Some(name)) = with(|c| below(c, &p)) else { return real() };
    let changes = flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if changes { meet(); }
    let existed = std::fs::symlink_metadata(&p).is_ok();
    let kind = if flags & libc::O_TRUNC != 0 && existed { "trunc" } else if flags & libc::O_CREAT != 0 && !existed { "create" } else { "open" };
    let go = if changes { with(decide).unwrap() } else { Go::Real };
    let r = match go { Go::Err(e) => unsafe { err(e) }, _ => real() };
    with(|c| {
        c.files += 1;
        let f = c.files;
        if changes { c.ops.push(Op { file: f, ok: r >= 0, ..op(kind, name.clone()) }); }
        if r >= 0 { c.fds.insert(r, (f, 0, name)); }
    });
    r
}
unsafe fn do_write(fd: c_int, n: size_t, at: Option<i64>, real: &dyn Fn(size_t) -> ssize_t) -> ssize_t {
    if !with(|c| c.fds.contains_key(&fd)).unwrap_or(false) { return real(n); }
    meet();
    let go = with(decide).unwrap();
    let r = match go { Go::Real => real(n), Go::Part(m) => real(m.min(n)), Go::Err(e) => unsafe { err(e) as ssize_t } };
    with(|c| {
        let (file, pos, name) = c.fds.get_mut(&fd).map(|x| (x.0, &mut x.1, x.2.clone())).unwrap();
        let start = at.unwrap_or(*pos);
        if at.is_none() && r > 0 { *pos += r as i64; }
        let o = Op { file, at: start, len: n as i64, ok: r >= 0, done: r as i64, ..op("write", name) };
        c.ops.push(o);
    });
    r
}
unsafe fn do_fd(kind: &'static str, fd: c_int, len: i64, real: &dyn Fn() -> c_int) -> c_int {
    if !with(|c| c.fds.contains_key(&fd)).unwrap_or(false) { return real(); }
    meet();
    let r = match with(decide).unwrap() { Go::Err(e) => unsafe { err(e) }, _ => real() };
    with(|c| { let (f, _, n) = c.fds[&fd].clone(); c.ops.push(Op { file: f, len, ok: r >= 0, ..op(kind, n) }); });
    r
}
unsafe fn do_names(kind: &'static str, a: String, b: String, real: &dyn Fn() -> c_int) -> c_int {
    let Some((x, y)) = with(|c| { let (x, y) = (below(c, &a), below(c, &b)); (x.is_some() || y.is_some()).then(|| (x.unwrap_or(a), y.unwrap_or(b))) }).flatten() else { return real() };
    meet();
    let r = match with(decide).unwrap() { Go::Err(e) => unsafe { err(e) }, _ => real() };
    with(|c| c.ops.push(Op { to: y, ok: r >= 0, ..op(kind, x) }));
    r
}
unsafe fn do_read(fd: c_int, real: &dyn Fn() -> ssize_t) -> ssize_t {
    let e = with(|c| if c.fds.contains_key(&fd) { c.read_fault } else { 0 }).unwrap_or(0);
    if e != 0 { return unsafe { err(e) as ssize_t }; }
    real()
}
macro_rules! c { ($($name:ident($($a:ident: $t:ty),*) -> $r:ty = $e:expr;)*) => { $(
    #[unsafe(no_mangle)] pub unsafe extern "C" fn $name($($a: $t),*) -> $r { unsafe { $e } }
)* } }
c! {
    open(p: *const c_char, f: c_int, m: mode_t) -> c_int = do_open(libc::AT_FDCWD, p, f, m);
    open64(p: *const c_char, f: c_int, m: mode_t) -> c_int = do_open(libc::AT_FDCWD, p, f, m);
    openat(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int = do_open(d, p, f, m);
    openat64(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int = do_open(d, p, f, m);
    creat(p: *const c_char, m: mode_t) -> c_int = do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, m);
    write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t = do_write(fd, n, None, &|n| libc::syscall(SYS_write, fd, b, n) as ssize_t);
    pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t = do_write(fd, n, Some(o), &|n| libc::syscall(SYS_pwrite64, fd, b, n, o) as ssize_t);
    pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t = do_write(fd, n, Some(o), &|n| libc::syscall(SYS_pwrite64, fd, b, n, o) as ssize_t);
    writev(fd: c_int, v: *const iovec, k: c_int) -> ssize_t = {
        let n = (0..k as usize).map(|i| (*v.add(i)).iov_len).sum::<usize>();
        // a part of a vectored write is the first buffer's part
        do_write(fd, n, None, &|m| if m == n { libc::syscall(SYS_writev, fd, v, k) as ssize_t } else {
            let first = &*v;
            libc::syscall(SYS_write, fd, first.iov_base, m.min(first.iov_len)) as ssize_t
        })
    };
    read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t = do_read(fd, &|| libc::syscall(SYS_read, fd, b, n) as ssize_t);
    pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t = do_read(fd, &|| libc::syscall(SYS_pread64, fd, b, n, o) as ssize_t);
    fsync(fd: c_int) -> c_int = do_fd("sync", fd, 0, &|| libc::syscall(SYS_fsync, fd) as c_int);
    fdatasync(fd: c_int) -> c_int = do_fd("sync", fd, 0, &|| libc::syscall(SYS_fdatasync, fd) as c_int);
    ftruncate(fd: c_int, n: off_t) -> c_int = do_fd("cut", fd, n, &|| libc::syscall(SYS_ftruncate, fd, n) as c_int);
    ftruncate64(fd: c_int, n: off64_t) -> c_int = do_fd("cut", fd, n, &|| libc::syscall(SYS_ftruncate, fd, n) as c_int);
    sendfile(o: c_int, i: c_int, p: *mut off_t, n: size_t) -> ssize_t = do_fd("other", o, 0, &|| libc::syscall(SYS_sendfile, o, i, p, n) as c_int) as ssize_t;
    sendfile64(o: c_int, i: c_int, p: *mut off64_t, n: size_t) -> ssize_t = do_fd("other", o, 0, &|| libc::syscall(SYS_sendfile, o, i, p, n) as c_int) as ssize_t;
    copy_file_range(i: c_int, a: *mut off64_t, o: c_int, b: *mut off64_t, n: size_t, f: c_uint) -> ssize_t =
        do_fd("other", o, 0, &|| libc::syscall(SYS_copy_file_range, i, a, o, b, n, f) as c_int) as ssize_t;
    rename(a: *const c_char, b: *const c_char) -> c_int = do_names("rename", text(a), text(b), &|| libc::syscall(SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int);
    renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int = do_names("rename", text(a), text(b), &|| libc::syscall(SYS_renameat2, d, a, e, b, 0) as c_int);
    renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_uint) -> c_int = do_names("rename", text(a), text(b), &|| libc::syscall(SYS_renameat2, d, a, e, b, f) as c_int);
    link(a: *const c_char, b: *const c_char) -> c_int = do_names("link", text(a), text(b), &|| libc::syscall(SYS_linkat, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int);
    linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int = do_names("link", text(a), text(b), &|| libc::syscall(SYS_linkat, d, a, e, b, f) as c_int);
    unlink(a: *const c_char) -> c_int = do_names("unlink", text(a), String::new(), &|| libc::syscall(SYS_unlinkat, libc::AT_FDCWD, a, 0) as c_int);
    unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int = do_names("unlink", text(a), String::new(), &|| libc::syscall(SYS_unlinkat, d, a, f) as c_int);
    close(fd: c_int) -> c_int = { with(|c| c.fds.remove(&fd)); libc::syscall(SYS_close, fd) as c_int };
}
