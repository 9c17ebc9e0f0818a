//! Stand-ins for allocation functions (linked with --wrap): they note where guarded memory lies and
//! whether it is given back while it still holds data.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    ffi::c_void,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
};

extern "C" {
    fn __real_sodium_allocarray(n: usize, s: usize) -> *mut c_void;
    fn __real_sodium_malloc(s: usize) -> *mut c_void;
    fn __real_munmap(p: *mut c_void, len: usize) -> i32;
    fn __real_mmap(p: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn __real_mprotect(p: *mut c_void, len: usize, prot: i32) -> i32;
    fn __real_mlock(p: *const c_void, len: usize) -> i32;
    fn __real_munlock(p: *const c_void, len: usize) -> i32;
    fn __real_madvise(p: *mut c_void, len: usize, advice: i32) -> i32;
    fn sodium_mprotect_readonly(p: *mut c_void) -> i32;
    fn sodium_mprotect_noaccess(p: *mut c_void) -> i32;
}
thread_local! { static ALLOCS: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) }; }
static WATCH: Mutex<BTreeMap<usize, usize>> = Mutex::new(BTreeMap::new());
static WATCHING: AtomicBool = AtomicBool::new(false);
pub static UNWIPED: AtomicU64 = AtomicU64::new(0);

/// Without page protection (set once, before any secret exists): memory management takes most of
/// the time of small programs, and other checks look at it.
pub static FAST: AtomicBool = AtomicBool::new(false);
/// Mappings given back, by length.
static POOL: Mutex<BTreeMap<usize, Vec<usize>>> = Mutex::new(BTreeMap::new());
#[no_mangle]
unsafe extern "C" fn __wrap_mmap(p: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void {
    if FAST.load(Ordering::Relaxed) && fd == -1 && p.is_null() && len < 1 << 20 {
        if let Some(x) = POOL.lock().unwrap().get_mut(&len).and_then(|v| v.pop()) {
            return x as *mut c_void;
        }
    }
    __real_mmap(p, len, prot, flags, fd, off)
}
#[no_mangle]
unsafe extern "C" fn __wrap_mmap64(p: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void {
    __wrap_mmap(p, len, prot, flags, fd, off)
}
#[no_mangle]
unsafe extern "C" fn __wrap_mprotect(p: *mut c_void, len: usize, prot: i32) -> i32 {
    if FAST.load(Ordering::Relaxed) {
        return 0;
    }
    __real_mprotect(p, len, prot)
}
#[no_mangle]
unsafe extern "C" fn __wrap_mlock(p: *const c_void, len: usize) -> i32 {
    if FAST.load(Ordering::Relaxed) {
        return 0;
    }
    __real_mlock(p, len)
}
#[no_mangle]
unsafe extern "C" fn __wrap_munlock(p: *const c_void, len: usize) -> i32 {
    if FAST.load(Ordering::Relaxed) {
        return 0;
    }
    __real_munlock(p, len)
}
#[no_mangle]
unsafe extern "C" fn __wrap_madvise(p: *mut c_void, len: usize, advice: i32) -> i32 {
    if FAST.load(Ordering::Relaxed) {
        return 0;
    }
    __real_madvise(p, len, advice)
}

fn note(p: *mut c_void, size: usize) {
    let _ = ALLOCS.try_with(|a| {
        if let Ok(mut a) = a.try_borrow_mut() {
            if a.len() > 100_000 {
                a.clear();
            }
            a.push((p as usize, size))
        }
    });
    if WATCHING.load(Ordering::Relaxed) && !p.is_null() && size > 0 {
        WATCH.lock().unwrap().insert(p as usize, size);
    }
}
#[no_mangle]
unsafe extern "C" fn __wrap_sodium_allocarray(n: usize, s: usize) -> *mut c_void {
    let p = __real_sodium_allocarray(n, s);
    note(p, n * s);
    p
}
#[no_mangle]
unsafe extern "C" fn __wrap_sodium_malloc(s: usize) -> *mut c_void {
    let p = __real_sodium_malloc(s);
    note(p, s);
    p
}
#[no_mangle]
unsafe extern "C" fn __wrap_munmap(p: *mut c_void, len: usize) -> i32 {
    if FAST.load(Ordering::Relaxed) && len < 1 << 20 {
        POOL.lock().unwrap().entry(len).or_default().push(p as usize);
        return 0;
    }
    if WATCHING.load(Ordering::Relaxed) {
        let mut gone = vec![];
        {
            let mut w = WATCH.lock().unwrap();
            let ks: Vec<usize> = w.range(p as usize..p as usize + len).map(|x| *x.0).collect();
            for k in ks {
                gone.push((k, w.remove(&k).unwrap()));
            }
        }
        for (a, n) in gone {
            if readable(a, n) && std::slice::from_raw_parts(a as *const u8, n).iter().filter(|b| **b != 0).count() * 4 > n {
                UNWIPED.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
    __real_munmap(p, len)
}
/// Allocations of this thread since the last call.
pub fn allocs() -> Vec<(usize, usize)> {
    ALLOCS.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
pub fn watch(on: bool) {
    WATCHING.store(on, Ordering::SeqCst);
    UNWIPED.store(0, Ordering::SeqCst);
    WATCH.lock().unwrap().clear();
}
fn pipe() -> (i32, i32) {
    thread_local! { static P: (i32, i32) = { let mut f = [0; 2]; unsafe { assert_eq!(libc::pipe(f.as_mut_ptr()), 0) }; (f[0], f[1]) }; }
    P.with(|p| *p)
}
/// Can these bytes be read? (Asks the kernel, so that nothing faults.)
pub fn readable(a: usize, n: usize) -> bool {
    let (r, w) = pipe();
    let mut ends = vec![a];
    if n > 1 {
        ends.push(a + n - 1);
    }
    ends.into_iter().all(|x| unsafe {
        let k = libc::write(w, x as *const c_void, 1);
        if k == 1 {
            let mut b = 0u8;
            libc::read(r, &mut b as *mut u8 as *mut c_void, 1);
        }
        k == 1
    })
}
/// Can the first and last of these bytes be written? Reads one byte back over itself.
pub fn writable(a: usize, n: usize) -> bool {
    let (r, w) = pipe();
    let mut ends = vec![a];
    if n > 1 {
        ends.push(a + n - 1);
    }
    ends.into_iter().all(|x| unsafe {
        if libc::write(w, x as *const c_void, 1) != 1 {
            let b = 0u8;
            // not readable: is it writable all the same?
            libc::write(w, &b as *const u8 as *const c_void, 1);
        }
        let k = libc::read(r, x as *mut c_void, 1);
        if k != 1 {
            let mut b = 0u8;
            libc::read(r, &mut b as *mut u8 as *mut c_void, 1);
        }
        k == 1
    })
}
/// The content of guarded memory nobody borrows, protection restored.
pub fn peek(a: usize, n: usize) -> Vec<u8> {
    unsafe {
        if sodium_mprotect_readonly(a as *mut c_void) != 0 {
            return vec![];
        }
        let v = std::slice::from_raw_parts(a as *const u8, n).to_vec();
        sodium_mprotect_noaccess(a as *mut c_void);
        v
    }
}
