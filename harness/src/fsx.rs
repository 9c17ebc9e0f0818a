//! Stand-ins for the file operations of the C library (linked with --wrap). While a thread watches a
//! directory, they record what is done there, make chosen calls fail, and can act as if the process
//! had been killed before or in the middle of a call.
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::HashMap,
    ffi::{c_char, c_int, c_void, CStr},
    path::Path,
};

macro_rules! real {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { extern "C" { $(fn $f($($a: $t),*) -> $r;)* } };
}
real! {
    __real_open64(p: *const c_char, flags: c_int, mode: u32) -> c_int;
    __real_openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int;
    __real_close(fd: c_int) -> c_int;
    __real_write(fd: c_int, b: *const c_void, n: usize) -> isize;
    __real_writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize;
    __real_pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize;
    __real_ftruncate64(fd: c_int, n: i64) -> c_int;
    __real_truncate64(p: *const c_char, n: i64) -> c_int;
    __real_fsync(fd: c_int) -> c_int;
    __real_fdatasync(fd: c_int) -> c_int;
    __real_rename(a: *const c_char, b: *const c_char) -> c_int;
    __real_renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int;
    __real_renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: u32) -> c_int;
    __real_unlink(p: *const c_char) -> c_int;
    __real_unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int;
    __real_link(a: *const c_char, b: *const c_char) -> c_int;
    __real_linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int;
    __real_mkdir(p: *const c_char, mode: u32) -> c_int;
    __real_copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: u32) -> isize;
    __real_sendfile64(b: c_int, a: c_int, o: *mut i64, n: usize) -> isize;
    __real_sync() -> ();
}

/// What happens at the call with a given number.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// The call fails with this error; `true`: so do all later ones.
    Error(i32, bool),
    /// Interrupted by a signal, without effect.
    Again,
    /// A write takes only some of the bytes.
    Short,
    /// A write takes half of the bytes, and from then on the disk is full.
    Full,
    /// The process ends before the call.
    Kill,
    /// The process ends in the call: half of a write is done, anything else is.
    KillIn,
}
#[derive(Default)]
pub struct Rec {
    dir: String,
    target: String, // the snapshot path
    pub events: Vec<Value>,
    pub calls: Vec<&'static str>,
    plan: Option<(usize, Fault)>,
    pub dead: bool,
    failing: Option<i32>,
    fds: HashMap<c_int, String>,
    dirs: Vec<c_int>,
    /// files with content that was not synced, by inode
    pub dirty: HashMap<u64, String>,
}
thread_local! { static REC: RefCell<Option<Rec>> = const { RefCell::new(None) }; }

pub fn watch(dir: &Path, target: &Path, plan: Option<(usize, Fault)>) {
    REC.with(|r| {
        *r.borrow_mut() = Some(Rec { dir: dir.display().to_string(), target: target.display().to_string(), plan, ..Default::default() })
    });
}
pub fn stop() -> Rec {
    REC.with(|r| r.borrow_mut().take()).unwrap_or_default()
}
enum Do {
    Pass,
    Fail(i32),
    Half,
    HalfKill,
}
impl Rec {
    fn name(&self, p: &str) -> String {
        if p == self.target {
            "P".into()
        } else {
            p.strip_prefix(&self.dir).unwrap_or(p).to_string()
        }
    }
    /// The next call.
    fn call(&mut self, what: &'static str) -> Do {
        if self.dead {
            return Do::Fail(libc::EIO);
        }
        let k = self.calls.len();
        self.calls.push(what);
        if let Some(e) = self.failing {
            return Do::Fail(e);
        }
        let Some((at, f)) = self.plan else { return Do::Pass };
        if at != k {
            return Do::Pass;
        }
        let write = what == "write";
        match f {
            Fault::Error(e, always) => {
                if always {
                    self.failing = Some(e);
                }
                Do::Fail(e)
            }
            Fault::Again if what == "write" || what == "open" => Do::Fail(libc::EINTR),
            Fault::Short if write => Do::Half,
            Fault::Full if write => {
                self.failing = Some(libc::ENOSPC);
                Do::Half
            }
            Fault::Full | Fault::Again | Fault::Short => Do::Pass,
            Fault::Kill => {
                self.dead = true;
                self.events.push(json!({"k": "kill"}));
                Do::Fail(libc::EIO)
            }
            Fault::KillIn => Do::HalfKill,
        }
    }
    fn die(&mut self) {
        self.dead = true;
        self.events.push(json!({"k": "kill"}));
    }
}
fn err<T: From<i8>>(e: i32) -> T {
    unsafe { *libc::__errno_location() = e };
    T::from(-1)
}
fn text(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}
/// The path of `p` relative to the directory descriptor d.
fn at(d: c_int, p: *const c_char) -> String {
    let t = text(p);
    if t.starts_with('/') || d == libc::AT_FDCWD {
        return t;
    }
    std::fs::read_link(format!("/proc/self/fd/{d}")).map(|x| x.join(&t).display().to_string()).unwrap_or(t)
}
/// Runs f with the recorder of this thread, if it watches this path.
fn with<T>(p: &str, f: impl FnOnce(&mut Rec) -> T) -> Option<T> {
    REC.try_with(|r| {
        let mut r = r.try_borrow_mut().ok()?;
        let r = r.as_mut()?;
        if !p.starts_with(&r.dir) {
            return None;
        }
        Some(f(r))
    })
    .ok()
    .flatten()
}
fn with_fd<T>(fd: c_int, f: impl FnOnce(&mut Rec) -> T) -> Option<T> {
    REC.try_with(|r| {
        let mut r = r.try_borrow_mut().ok()?;
        let r = r.as_mut()?;
        if !r.fds.contains_key(&fd) && !r.dirs.contains(&fd) {
            return None;
        }
        Some(f(r))
    })
    .ok()
    .flatten()
}
fn inode(fd: c_int) -> u64 {
    unsafe {
        let mut st: libc::stat64 = std::mem::zeroed();
        libc::fstat64(fd, &mut st);
        st.st_ino
    }
}
fn open(path: String, flags: c_int, real: impl Fn() -> c_int) -> c_int {
    let changes = flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) != 0;
    with(&path, |r| {
        if !changes {
            let fd = real();
            if fd >= 0 && Path::new(&path).is_dir() {
                r.dirs.push(fd);
            }
            return fd;
        }
        let name = r.name(&path);
        let c = r.call("open");
        if let Do::Fail(e) = c {
            r.events.push(json!({"k": "failed", "op": "open", "name": name}));
            return err(e);
        }
        let existed = Path::new(&path).exists();
        let fd = real();
        if fd < 0 {
            r.events.push(json!({"k": "failed", "op": "open", "name": name}));
            return fd;
        }
        let (creat, trunc) = (flags & libc::O_CREAT != 0, flags & libc::O_TRUNC != 0);
        r.fds.insert(fd, name.clone());
        if trunc || !existed {
            r.dirty.insert(inode(fd), path.clone());
        }
        r.events.push(json!({"k": "open", "name": name, "fd": fd, "creat": creat, "excl": flags & libc::O_EXCL != 0, "trunc": trunc}));
        if let Do::HalfKill = c {
            r.die();
        }
        fd
    })
    .unwrap_or_else(real)
}
fn write(fd: c_int, n: usize, real: impl Fn(usize) -> isize) -> isize {
    with_fd(fd, |r| {
        let c = r.call("write");
        let m = match c {
            Do::Fail(e) => {
                r.events.push(json!({"k": "failed", "op": "write", "fd": fd}));
                return err::<isize>(e);
            }
            Do::Pass => n,
            Do::Half | Do::HalfKill => n / 2,
        };
        let w = if m == 0 && n > 0 { 0 } else { real(m) };
        if w > 0 {
            r.dirty.insert(inode(fd), String::new());
            r.events.push(json!({"k": "write", "fd": fd, "n": w}));
        }
        if let Do::HalfKill = c {
            r.die();
            return err::<isize>(libc::EIO);
        }
        if w == 0 && n > 0 && matches!(c, Do::Half) {
            return err::<isize>(libc::EINTR);
        }
        w
    })
    .unwrap_or_else(|| real(n))
}
/// A call with no partial effect: `note` is recorded if it succeeds.
fn other(r: &mut Rec, what: &'static str, note: Value, real: impl FnOnce() -> c_int) -> c_int {
    let c = r.call(what);
    if let Do::Fail(e) = c {
        r.events.push(json!({"k": "failed", "op": what}));
        return err(e);
    }
    let x = real();
    r.events.push(if x == 0 { note } else { json!({"k": "failed", "op": what}) });
    if let Do::HalfKill = c {
        r.die();
        return err(libc::EIO);
    }
    x
}
fn sync(fd: c_int, real: impl Fn() -> c_int) -> c_int {
    with_fd(fd, |r| {
        if r.dirs.contains(&fd) {
            return other(r, "syncdir", json!({"k": "syncdir"}), &real);
        }
        let x = other(r, "sync", json!({"k": "sync", "fd": fd}), &real);
        if r.events.last().map(|e| e["k"] == "sync") == Some(true) || (r.dead && r.events.len() > 1 && r.events[r.events.len() - 2]["k"] == "sync") {
            r.dirty.remove(&inode(fd));
        }
        x
    })
    .unwrap_or_else(real)
}
fn rename(a: String, b: String, real: impl Fn() -> c_int) -> c_int {
    with(&b, |r| {
        let note = json!({"k": "rename", "a": r.name(&a), "b": r.name(&b)});
        other(r, "rename", note, &real)
    })
    .unwrap_or_else(real)
}
fn link(a: String, b: String, real: impl Fn() -> c_int) -> c_int {
    with(&b, |r| {
        let note = json!({"k": "link", "a": r.name(&a), "b": r.name(&b)});
        other(r, "link", note, &real)
    })
    .unwrap_or_else(real)
}
fn unlink(a: String, real: impl Fn() -> c_int) -> c_int {
    with(&a, |r| {
        let note = json!({"k": "unlink", "name": r.name(&a)});
        other(r, "unlink", note, &real)
    })
    .unwrap_or_else(real)
}

#[no_mangle]
unsafe extern "C" fn __wrap_open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    open(text(p), flags, || __real_open64(p, flags, mode))
}
#[no_mangle]
unsafe extern "C" fn __wrap_open(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    __wrap_open64(p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn __wrap_openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    open(at(d, p), flags, || __real_openat64(d, p, flags, mode))
}
#[no_mangle]
unsafe extern "C" fn __wrap_openat(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    __wrap_openat64(d, p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn __wrap_close(fd: c_int) -> c_int {
    let _ = with_fd(fd, |r| {
        r.dirs.retain(|x| *x != fd);
        if r.fds.remove(&fd).is_some() && !r.dead {
            r.events.push(json!({"k": "close", "fd": fd}));
        }
    });
    __real_close(fd)
}
#[no_mangle]
unsafe extern "C" fn __wrap_write(fd: c_int, b: *const c_void, n: usize) -> isize {
    write(fd, n, |m| __real_write(fd, b, m))
}
#[no_mangle]
unsafe extern "C" fn __wrap_pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    write(fd, n, |m| __real_pwrite64(fd, b, m, o))
}
#[no_mangle]
unsafe extern "C" fn __wrap_writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    let total: usize = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
    write(fd, total, |m| if m == total { __real_writev(fd, v, n) } else { __real_write(fd, (*v).iov_base, (*v).iov_len.min(m)) })
}
#[no_mangle]
unsafe extern "C" fn __wrap_ftruncate64(fd: c_int, n: i64) -> c_int {
    with_fd(fd, |r| {
        r.dirty.insert(inode(fd), String::new());
        other(r, "truncate", json!({"k": "truncfd", "fd": fd}), || __real_ftruncate64(fd, n))
    })
    .unwrap_or_else(|| __real_ftruncate64(fd, n))
}
#[no_mangle]
unsafe extern "C" fn __wrap_ftruncate(fd: c_int, n: i64) -> c_int {
    __wrap_ftruncate64(fd, n)
}
#[no_mangle]
unsafe extern "C" fn __wrap_truncate64(p: *const c_char, n: i64) -> c_int {
    with(&text(p), |r| {
        let note = json!({"k": "trunc", "name": r.name(&text(p))});
        other(r, "truncate", note, || __real_truncate64(p, n))
    })
    .unwrap_or_else(|| __real_truncate64(p, n))
}
#[no_mangle]
unsafe extern "C" fn __wrap_fsync(fd: c_int) -> c_int {
    sync(fd, || __real_fsync(fd))
}
#[no_mangle]
unsafe extern "C" fn __wrap_fdatasync(fd: c_int) -> c_int {
    sync(fd, || __real_fdatasync(fd))
}
#[no_mangle]
unsafe extern "C" fn __wrap_sync() {
    let _ = REC.try_with(|r| {
        if let Ok(mut r) = r.try_borrow_mut() {
            if let Some(r) = r.as_mut() {
                r.dirty.clear();
                r.events.push(json!({"k": "syncall"}));
            }
        }
    });
}
#[no_mangle]
unsafe extern "C" fn __wrap_rename(a: *const c_char, b: *const c_char) -> c_int {
    rename(text(a), text(b), || __real_rename(a, b))
}
#[no_mangle]
unsafe extern "C" fn __wrap_renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    rename(at(d, a), at(e, b), || __real_renameat(d, a, e, b))
}
#[no_mangle]
unsafe extern "C" fn __wrap_renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: u32) -> c_int {
    rename(at(d, a), at(e, b), || __real_renameat2(d, a, e, b, f))
}
#[no_mangle]
unsafe extern "C" fn __wrap_unlink(p: *const c_char) -> c_int {
    unlink(text(p), || __real_unlink(p))
}
#[no_mangle]
unsafe extern "C" fn __wrap_unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    unlink(at(d, p), || __real_unlinkat(d, p, f))
}
#[no_mangle]
unsafe extern "C" fn __wrap_link(a: *const c_char, b: *const c_char) -> c_int {
    link(text(a), text(b), || __real_link(a, b))
}
#[no_mangle]
unsafe extern "C" fn __wrap_linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    link(at(d, a), at(e, b), || __real_linkat(d, a, e, b, f))
}
#[no_mangle]
unsafe extern "C" fn __wrap_mkdir(p: *const c_char, mode: u32) -> c_int {
    with(&text(p), |r| other(r, "mkdir", json!({"k": "mkdir"}), || __real_mkdir(p, mode))).unwrap_or_else(|| __real_mkdir(p, mode))
}
#[no_mangle]
unsafe extern "C" fn __wrap_copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: u32) -> isize {
    write(b, n, |m| __real_copy_file_range(a, ao, b, bo, m, f))
}
#[no_mangle]
unsafe extern "C" fn __wrap_sendfile64(b: c_int, a: c_int, o: *mut i64, n: usize) -> isize {
    write(b, n, |m| __real_sendfile64(b, a, o, m))
}
/// What a loss of power may make of files whose content was not synced.
pub fn lose(dir: &Path, dirty: &HashMap<u64, String>, variant: u64) {
    use std::os::unix::fs::MetadataExt;
    let Ok(list) = std::fs::read_dir(dir) else { return };
    for f in list.flatten() {
        let Ok(m) = f.metadata() else { continue };
        if m.is_file() && dirty.contains_key(&m.ino()) {
            let n = m.len();
            let h = std::fs::OpenOptions::new().write(true).open(f.path()).unwrap();
            match variant % 3 {
                0 => h.set_len(0).unwrap(),
                1 => h.set_len(n / 2).unwrap(),
                _ => {
                    h.set_len(0).unwrap();
                    h.set_len(n).unwrap();
                }
            }
        }
    }
}
