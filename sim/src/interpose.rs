//! The C library symbols through which the library under test (and the Rust standard library on its behalf) reaches
//! the operating system. Calls made from inside a simulated library call are served by the world; all others go to
//! the kernel.
use crate::plan::*;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};

unsafe fn inlib<R>(f: impl FnOnce() -> R) -> R {
    set_lib(false);
    ctr(crate::shm::K_SYSCALL, 1);
    let me = CUR;
    if w().tasks[me].cnt[1] > SYS_CAP {
        violation("stuck", format!("the operation has made {} system calls without finishing", SYS_CAP));
        finish();
    }
    w().mono += 1000;
    w().now += 1000;
    let r = f();
    set_lib(true);
    r
}
/// Applies the fault planned for this call, if any.
fn faulted(pt: i64, slot: usize) -> Option<i64> {
    let me = unsafe { CUR };
    if w().tasks[me].eintr[slot] > 0 {
        w().tasks[me].eintr[slot] -= 1;
        return Some(fail(libc::EINTR));
    }
    point(P_SYS);
    match point(pt) {
        Some((A_ERR, e)) => {
            w().tasks[me].hard_fault = true;
            Some(fail(e as i32))
        }
        Some((A_EINTR, k)) => {
            w().tasks[me].eintr[slot] = k - 1;
            w().tasks[me].soft_fault = true;
            Some(fail(libc::EINTR))
        }
        Some((A_SHORT, k)) => {
            w().tasks[me].soft_fault = true;
            Some(k.max(1))
        }
        _ => None,
    }
}
fn changed(what: &str, path: *const c_char) -> i64 {
    let p = if path.is_null() { String::new() } else { unsafe { std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned() } };
    let me = unsafe { CUR };
    w().tasks[me].bad_call = Some(format!("{what} {p}"));
    point(P_SYS);
    fail(libc::EROFS)
}
unsafe fn raw_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    ret(raw(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
unsafe fn sim_open(path: *const c_char, flags: c_int) -> c_int {
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
        return changed("open for writing", path) as c_int;
    }
    if let Some(r) = faulted(P_OPEN, 0) {
        if r < 0 {
            return -1;
        }
    }
    let fd = match lookup(path) {
        Some(Node::Dir) => raw_open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0),
        Some(Node::File(d, z, right)) => {
            let st = state_of(d, z);
            ctr(crate::shm::K_CLASS + st.kind as usize, 1);
            log(|| format!("  open {}/{} -> {} table {}", d, ZONES[z], FN[st.kind as usize], st.table));
            match st.kind {
                F_MISSING => fail(libc::ENOENT) as c_int,
                F_EACCES => fail([libc::EACCES, libc::ELOOP, libc::ENOTDIR, libc::EIO][(st.arg & 3) as usize]) as c_int,
                F_ISDIR => raw_open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0),
                _ => {
                    let b = content(&st, right);
                    let fd = ret(raw(libc::SYS_memfd_create, c"z".as_ptr() as i64, 1, 0, 0, 0, 0)) as c_int;
                    if fd >= 0 {
                        let mut at = 0;
                        while at < b.len() {
                            let n = raw(libc::SYS_pwrite64, fd as i64, b.as_ptr().add(at) as i64, (b.len() - at) as i64, at as i64, 0, 0);
                            assert!(n > 0);
                            at += n as usize;
                        }
                        w().vfd.push((fd, FState { arg: if right { st.arg } else { i64::MAX }, ..st }));
                    }
                    fd
                }
            }
        }
        _ => fail(libc::ENOENT) as c_int,
    };
    if fd >= 0 {
        w().tasks[CUR].fds.push(fd);
    }
    fd
}
macro_rules! opens {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(path: *const c_char, flags: c_int, mode: u32) -> c_int {
            if in_lib() { inlib(|| sim_open(path, flags)) } else { raw_open(path, flags, mode) }
        }
    )*};
}
opens!(open open64);
macro_rules! openats {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
            if in_lib() {
                inlib(|| sim_open(path, flags))
            } else {
                ret(raw(libc::SYS_openat, d as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
            }
        }
    )*};
}
openats!(openat openat64);
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if in_lib() {
        inlib(|| {
            point(P_SYS);
            w().vfd.retain(|v| v.0 != fd);
            for t in w().tasks.iter_mut() {
                t.fds.retain(|f| *f != fd);
            }
            ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
        })
    } else {
        ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
    }
}
unsafe fn sim_read(fd: c_int, buf: *mut c_void, n: size_t, off: Option<i64>) -> ssize_t {
    let me = CUR;
    let mut n = n;
    match faulted(P_READ, 1) {
        Some(r) if r < 0 => return -1,
        Some(k) => n = n.min(k as usize),
        None => {}
    }
    if w().tasks[me].chunk > 0 {
        n = n.min(w().tasks[me].chunk);
    }
    if let Some(v) = w().vfd.iter().find(|v| v.0 == fd) {
        if v.1.kind == F_EIO && v.1.arg != i64::MAX {
            let pos = off.unwrap_or_else(|| raw(libc::SYS_lseek, fd as i64, 0, 1, 0, 0, 0));
            let len = content(&v.1, true).len() as i64;
            let bad = v.1.arg.rem_euclid(len);
            if pos >= bad {
                return fail(libc::EIO) as ssize_t;
            }
            n = n.min((bad - pos) as usize);
        }
    }
    ret(match off {
        None => raw(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0),
        Some(o) => raw(libc::SYS_pread64, fd as i64, buf as i64, n as i64, o, 0, 0),
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if in_lib() {
        inlib(|| sim_read(fd, buf, n, None))
    } else {
        ret(raw(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
    }
}
macro_rules! preads {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
            if in_lib() {
                inlib(|| sim_read(fd, buf, n, Some(off)))
            } else {
                ret(raw(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
            }
        }
    )*};
}
preads!(pread pread64);
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if in_lib() {
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                return inlib(|| sim_read(fd, e.iov_base, e.iov_len, None));
            }
        }
        0
    } else {
        ret(raw(libc::SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
    }
}
macro_rules! lseeks {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(fd: c_int, off: i64, wh: c_int) -> i64 {
            if in_lib() {
                inlib(|| { point(P_SYS); ret(raw(libc::SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0)) })
            } else {
                ret(raw(libc::SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
            }
        }
    )*};
}
lseeks!(lseek lseek64);

// ---- stat ----
struct St {
    mode: u32,
    size: i64,
    ino: u64,
    mtime: i64,
}
unsafe fn stat_path(path: *const c_char) -> Result<St, i32> {
    match lookup(path) {
        Some(Node::Dir) => Ok(St { mode: libc::S_IFDIR | 0o755, size: 4096, ino: 2, mtime: 1_500_000_000 }),
        Some(Node::File(d, z, right)) => {
            let st = state_of(d, z);
            match st.kind {
                F_MISSING => Err(libc::ENOENT),
                F_ISDIR => Ok(St { mode: libc::S_IFDIR | 0o755, size: 4096, ino: st.ino, mtime: st.mtime }),
                _ => Ok(St { mode: libc::S_IFREG | 0o644, size: size_of(&st, right), ino: st.ino, mtime: st.mtime }),
            }
        }
        _ => Err(libc::ENOENT),
    }
}
unsafe fn stat_fd(fd: c_int) -> Option<St> {
    let v = w().vfd.iter().find(|v| v.0 == fd)?;
    let mut s: libc::stat = std::mem::zeroed();
    raw(libc::SYS_fstat, fd as i64, &mut s as *mut _ as i64, 0, 0, 0, 0);
    Some(St { mode: libc::S_IFREG | 0o644, size: s.st_size, ino: v.1.ino, mtime: v.1.mtime })
}
unsafe fn fill_stat(o: *mut libc::stat, s: &St) {
    let mut b: libc::stat = std::mem::zeroed();
    b.st_mode = s.mode;
    b.st_size = s.size;
    b.st_ino = s.ino;
    b.st_mtime = s.mtime;
    b.st_ctime = 1_600_000_000 + s.ino as i64;
    b.st_atime = s.mtime;
    b.st_nlink = 1;
    b.st_blksize = 4096;
    *o = b;
}
unsafe fn sim_stat(path: *const c_char, o: *mut libc::stat) -> c_int {
    if let Some(r) = faulted(P_STAT, 2) {
        if r < 0 {
            return -1;
        }
    }
    match stat_path(path) {
        Ok(s) => {
            fill_stat(o, &s);
            0
        }
        Err(e) => fail(e) as c_int,
    }
}
macro_rules! stats {
    ($($n:ident $f:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(path: *const c_char, o: *mut libc::stat) -> c_int {
            if in_lib() {
                inlib(|| sim_stat(path, o))
            } else {
                ret(raw(libc::SYS_newfstatat, libc::AT_FDCWD as i64, path as i64, o as i64, $f, 0, 0)) as c_int
            }
        }
    )*};
}
stats!(stat 0; stat64 0; lstat 0x100; lstat64 0x100;);
macro_rules! fstats {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(fd: c_int, o: *mut libc::stat) -> c_int {
            if in_lib() {
                inlib(|| {
                    if let Some(r) = faulted(P_STAT, 2) { if r < 0 { return -1; } }
                    match stat_fd(fd) {
                        Some(s) => { fill_stat(o, &s); 0 }
                        None => ret(raw(libc::SYS_fstat, fd as i64, o as i64, 0, 0, 0, 0)) as c_int,
                    }
                })
            } else {
                ret(raw(libc::SYS_fstat, fd as i64, o as i64, 0, 0, 0, 0)) as c_int
            }
        }
    )*};
}
fstats!(fstat fstat64);
macro_rules! fstatats {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(d: c_int, path: *const c_char, o: *mut libc::stat, f: c_int) -> c_int {
            if in_lib() && *path != 0 {
                inlib(|| sim_stat(path, o))
            } else {
                ret(raw(libc::SYS_newfstatat, d as i64, path as i64, o as i64, f as i64, 0, 0)) as c_int
            }
        }
    )*};
}
fstatats!(fstatat fstatat64);
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: u32, o: *mut libc::statx) -> c_int {
    if !in_lib() {
        return ret(raw(libc::SYS_statx, d as i64, path as i64, flags as i64, mask as i64, o as i64, 0)) as c_int;
    }
    inlib(|| {
        if let Some(r) = faulted(P_STAT, 2) {
            if r < 0 {
                return -1;
            }
        }
        let s = if path.is_null() || *path == 0 {
            match stat_fd(d) {
                Some(s) => s,
                None => return ret(raw(libc::SYS_statx, d as i64, path as i64, flags as i64, mask as i64, o as i64, 0)) as c_int,
            }
        } else {
            match stat_path(path) {
                Ok(s) => s,
                Err(e) => return fail(e) as c_int,
            }
        };
        let mut b: libc::statx = std::mem::zeroed();
        b.stx_mask = 0x7ff;
        b.stx_mode = s.mode as u16;
        b.stx_size = s.size as u64;
        b.stx_ino = s.ino;
        b.stx_nlink = 1;
        b.stx_blksize = 4096;
        b.stx_mtime.tv_sec = s.mtime;
        b.stx_ctime.tv_sec = 1_600_000_000 + s.ino as i64;
        b.stx_atime.tv_sec = s.mtime;
        *o = b;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, m: c_int) -> c_int {
    if !in_lib() {
        return ret(raw(libc::SYS_access, path as i64, m as i64, 0, 0, 0, 0)) as c_int;
    }
    inlib(|| {
        point(P_SYS);
        match stat_path(path) {
            Ok(_) => 0,
            Err(e) => fail(e) as c_int,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let body = || {
        if stat_path(path).is_err() {
            fail(libc::ENOENT);
            return std::ptr::null_mut();
        }
        let n = libc::strlen(path) + 1;
        let o = if out.is_null() { libc::malloc(n) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(path, o, n);
        o
    };
    if in_lib() {
        inlib(|| {
            point(P_SYS);
            body()
        })
    } else {
        std::ptr::null_mut()
    }
}

// ---- calls that change the file system ----
macro_rules! mutators {
    ($($n:ident ($($a:ident : $t:ty),*) $p:ident $sys:expr, [$($r:expr),*];)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n($($a: $t),*) -> c_int {
            if in_lib() {
                inlib(|| changed(stringify!($n), $p as *const c_char) as c_int)
            } else {
                let v: [i64; 6] = [$($r as i64),*];
                ret(raw($sys, v[0], v[1], v[2], v[3], v[4], v[5])) as c_int
            }
        }
    )*};
}
mutators! {
    unlink(p: *const c_char) p libc::SYS_unlink, [p,0,0,0,0,0];
    unlinkat(d: c_int, p: *const c_char, f: c_int) p libc::SYS_unlinkat, [d,p,f,0,0,0];
    rename(p: *const c_char, q: *const c_char) p libc::SYS_rename, [p,q,0,0,0,0];
    mkdir(p: *const c_char, m: u32) p libc::SYS_mkdir, [p,m,0,0,0,0];
    rmdir(p: *const c_char) p libc::SYS_rmdir, [p,0,0,0,0,0];
    symlink(p: *const c_char, q: *const c_char) q libc::SYS_symlink, [p,q,0,0,0,0];
    link(p: *const c_char, q: *const c_char) q libc::SYS_link, [p,q,0,0,0,0];
    linkat(d: c_int, p: *const c_char, e: c_int, q: *const c_char, f: c_int) q libc::SYS_linkat, [d,p,e,q,f,0];
    chmod(p: *const c_char, m: u32) p libc::SYS_chmod, [p,m,0,0,0,0];
    truncate64(p: *const c_char, m: i64) p libc::SYS_truncate, [p,m,0,0,0,0];
    utimensat(d: c_int, p: *const c_char, t: *const c_void, f: c_int) p libc::SYS_utimensat, [d,p,t,f,0,0];
}
macro_rules! fmutators {
    ($($n:ident ($($a:ident : $t:ty),*) $sys:expr, [$($r:expr),*];)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n($($a: $t),*) -> c_int {
            if in_lib() {
                inlib(|| changed(stringify!($n), std::ptr::null()) as c_int)
            } else {
                let v: [i64; 6] = [$($r as i64),*];
                ret(raw($sys, v[0], v[1], v[2], v[3], v[4], v[5])) as c_int
            }
        }
    )*};
}
fmutators! {
    ftruncate64(fd: c_int, n: i64) libc::SYS_ftruncate, [fd,n,0,0,0,0];
    ftruncate(fd: c_int, n: i64) libc::SYS_ftruncate, [fd,n,0,0,0,0];
    fchmod(fd: c_int, n: u32) libc::SYS_fchmod, [fd,n,0,0,0,0];
    futimens(fd: c_int, t: *const c_void) libc::SYS_utimensat, [fd,0,t,0,0,0];
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if in_lib() {
        if fd == 1 {
            set_state("write to standard output");
            return n as ssize_t;
        }
        if fd == 2 {
            return n as ssize_t;
        }
        inlib(|| changed("write", std::ptr::null()) as ssize_t)
    } else {
        ret(raw(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
    }
}

// ---- calls that change the state of the process ----
/// Recorded, and without effect.
fn set_state(what: &str) {
    let me = unsafe { CUR };
    w().tasks[me].state_call.get_or_insert_with(|| what.to_string());
}
macro_rules! state_calls {
    ($($n:ident => $r:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            if in_lib() {
                return inlib(|| {
                    set_state(stringify!($n));
                    point(P_SYS);
                    $r
                });
            }
            static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let mut p = NEXT.load(std::sync::atomic::Ordering::Relaxed);
            if p == 0 {
                p = libc::dlsym(libc::RTLD_NEXT, concat!(stringify!($n), "\0").as_ptr() as *const c_char) as usize;
                assert!(p != 0);
                NEXT.store(p, std::sync::atomic::Ordering::Relaxed);
            }
            let real: extern "C" fn(i64, i64, i64, i64, i64, i64) -> i64 = std::mem::transmute(p);
            real(a, b, c, d, e, f)
        }
    )*};
}
state_calls! {
    setenv => 0;
    unsetenv => 0;
    putenv => 0;
    clearenv => 0;
    chdir => 0;
    fchdir => 0;
    umask => 0o22;
    signal => 0;
    sigaction => 0;
    sigprocmask => 0;
    pthread_sigmask => 0;
    setlocale => 0;
    pthread_create => libc::EAGAIN as i64;
    fork => fail(libc::EAGAIN);
    posix_spawn => libc::EAGAIN as i64;
    posix_spawnp => libc::EAGAIN as i64;
    execve => fail(libc::EACCES);
    execvp => fail(libc::EACCES);
    setrlimit => 0;
    setrlimit64 => 0;
    alarm => 0;
    setitimer => 0;
    clock_settime => fail(libc::EPERM);
    settimeofday => fail(libc::EPERM);
    adjtimex => fail(libc::EPERM);
    kill => 0;
    raise => 0;
    setpriority => 0;
    sched_setaffinity => 0;
}

// ---- environment, clocks, calendar ----
extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    if in_lib() {
        return inlib(|| {
            if std::ffi::CStr::from_ptr(name) != c"TZDIR" {
                return std::ptr::null();
            }
            point(P_SYS);
            match w().tzlog.last().unwrap().1 {
                0 => std::ptr::null(),
                1 => c"/simtz/a".as_ptr(),
                _ => c"/simtz/b\xff".as_ptr(),
            }
        });
    }
    let n = libc::strlen(name);
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        if libc::strncmp(e, name, n) == 0 && *e.add(n) == b'=' as c_char {
            return e.add(n + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if !in_lib() {
        return ret(raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int;
    }
    inlib(|| {
        point(P_SYS);
        point(P_CLOCK);
        let t = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE || id == libc::CLOCK_TAI {
            read_clock()
        } else {
            w().mono
        };
        (*ts).tv_sec = t.div_euclid(1_000_000_000) as i64;
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as i64;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !in_lib() {
        return ret(raw(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int;
    }
    inlib(|| {
        point(P_SYS);
        point(P_CLOCK);
        let t = read_clock();
        (*tv).tv_sec = t.div_euclid(1_000_000_000) as i64;
        (*tv).tv_usec = (t.rem_euclid(1_000_000_000) / 1000) as i64;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn time(o: *mut i64) -> i64 {
    let t = if in_lib() {
        inlib(|| {
            point(P_SYS);
            point(P_CLOCK);
            read_clock().div_euclid(1_000_000_000) as i64
        })
    } else {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as i64, 0, 0, 0, 0);
        ts.tv_sec
    };
    if !o.is_null() {
        *o = t;
    }
    t
}
unsafe fn tm_of(t: *const i64, o: *mut libc::tm) -> *mut libc::tm {
    if in_lib() {
        inlib(|| {
            point(P_SYS);
            *o = broken_down(*t);
        });
    } else {
        *o = std::mem::zeroed();
    }
    o
}
#[no_mangle]
pub unsafe extern "C" fn gmtime_r(t: *const i64, o: *mut libc::tm) -> *mut libc::tm {
    tm_of(t, o)
}
#[no_mangle]
pub unsafe extern "C" fn localtime_r(t: *const i64, o: *mut libc::tm) -> *mut libc::tm {
    tm_of(t, o)
}
static mut TM: libc::tm = unsafe { std::mem::zeroed() };
#[no_mangle]
pub unsafe extern "C" fn gmtime(t: *const i64) -> *mut libc::tm {
    tm_of(t, std::ptr::addr_of_mut!(TM))
}
#[no_mangle]
pub unsafe extern "C" fn localtime(t: *const i64) -> *mut libc::tm {
    tm_of(t, std::ptr::addr_of_mut!(TM))
}
unsafe fn of_tm(t: *mut libc::tm) -> i64 {
    if !in_lib() {
        return 0;
    }
    inlib(|| {
        point(P_SYS);
        let s = time_of(&*t);
        *t = broken_down(s);
        s
    })
}
#[no_mangle]
pub unsafe extern "C" fn timegm(t: *mut libc::tm) -> i64 {
    of_tm(t)
}
#[no_mangle]
pub unsafe extern "C" fn mktime(t: *mut libc::tm) -> i64 {
    of_tm(t)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: u32) -> ssize_t {
    if !in_lib() {
        return ret(raw(libc::SYS_getrandom, b as i64, n as i64, f as i64, 0, 0, 0)) as ssize_t;
    }
    inlib(|| {
        for i in 0..n {
            *(b as *mut u8).add(i) = crate::rng::splitmix(&mut w().rng) as u8;
        }
        n as ssize_t
    })
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_lib() {
        inlib(|| {
            point(P_SYS);
            spin_yield();
            0
        })
    } else {
        ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> c_int {
    if in_lib() {
        inlib(|| {
            point(P_SYS);
            sleep((*t).tv_sec as i128 * 1_000_000_000 + (*t).tv_nsec as i128);
            0
        })
    } else {
        ret(raw(libc::SYS_nanosleep, t as i64, r as i64, 0, 0, 0, 0)) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, t: *const libc::timespec, r: *mut libc::timespec) -> c_int {
    if in_lib() {
        inlib(|| {
            point(P_SYS);
            let ns = (*t).tv_sec as i128 * 1_000_000_000 + (*t).tv_nsec as i128;
            sleep(if f & 1 != 0 { (ns - if c == 0 { w().now } else { w().mono }).max(0) } else { ns });
            0
        })
    } else {
        -raw(libc::SYS_clock_nanosleep, c as i64, f as i64, t as i64, r as i64, 0, 0) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if !in_lib() {
        return ret(raw(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => inlib(|| {
            point(P_SYS);
            futex(a as *const u32, b as i32, c as u32, d as *const libc::timespec)
        }),
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as i64,
        libc::SYS_statx => statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as i64,
        libc::SYS_openat => openat(a as i32, b as *const c_char, c as i32, d as u32) as i64,
        libc::SYS_open => open(a as *const c_char, b as i32, c as u32) as i64,
        libc::SYS_read => read(a as i32, b as *mut c_void, c as usize) as i64,
        libc::SYS_close => close(a as i32) as i64,
        libc::SYS_clock_gettime => clock_gettime(a as i32, b as *mut libc::timespec) as i64,
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}
