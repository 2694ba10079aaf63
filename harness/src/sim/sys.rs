//! The libc functions the daemon uses, on top of the simulated kernel.
#![allow(non_snake_case)]
use super::kernel::*;
use crate::rt;
use super::kernel::{signal, sleep};
use libc::*;

extern "C" {
    static mut environ: *const *const c_char;
}

static mut ERRNO: [c_int; 256] = [0; 256];

#[no_mangle]
pub unsafe extern "C" fn simos___errno_location() -> *mut c_int {
    let i = rt::rsym_cur() as usize;
    &raw mut ERRNO[i]
}
unsafe fn e(n: i32) -> i32 {
    *simos___errno_location() = n;
    -1
}
unsafe fn el(n: i32) -> isize {
    *simos___errno_location() = n;
    -1
}

/// Replace the process environment (both in the executor and natively).
pub fn set_env(vars: &[(&str, &str)]) {
    let mut v: Vec<*const c_char> = vec![];
    for (k, val) in vars {
        let s = std::ffi::CString::new(format!("{k}={val}")).unwrap();
        v.push(s.into_raw());
    }
    v.push(std::ptr::null());
    let b: &'static mut [*const c_char] = Box::leak(v.into_boxed_slice());
    unsafe { environ = b.as_ptr() };
}

#[no_mangle]
pub unsafe extern "C" fn simos_getenv(name: *const c_char) -> *mut c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > n.len() && e[n.len()] == b'=' && &e[..n.len()] == n {
            return (*p).add(n.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn simos_unsetenv(name: *const c_char) -> c_int {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut v: Vec<*const c_char> = vec![];
    let mut p = environ;
    if p.is_null() {
        return 0;
    }
    while !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if !(e.len() > n.len() && e[n.len()] == b'=' && &e[..n.len()] == n) {
            v.push(*p);
        }
        p = p.add(1);
    }
    v.push(std::ptr::null());
    let b: &'static mut [*const c_char] = Box::leak(v.into_boxed_slice());
    environ = b.as_ptr();
    0
}

#[no_mangle]
pub unsafe extern "C" fn simos_getrandom(buf: *mut u8, n: usize, _f: c_uint) -> isize {
    for i in 0..n {
        *buf.add(i) = 0x5a;
    }
    n as isize
}

unsafe fn cs(p: *const c_char) -> String {
    String::from_utf8_lossy(std::ffi::CStr::from_ptr(p).to_bytes()).into_owned()
}

// ------------------------------------------------------------------ time
#[no_mangle]
pub unsafe extern "C" fn simos_clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    let kk = k();
    let mut n = kk.now;
    let sym = rt::is_sym(n);
    if c == CLOCK_REALTIME {
        // not affected by hold-ups of unknown length
        if sym {
            n = kk.real + MS;
        }
        kk.real = n;
        (*t).tv_sec = kk.wall0 + (n / SEC) as i64;
        (*t).tv_nsec = (n % SEC) as i64;
        return 0;
    }
    if !sym {
        kk.sec = n / SEC * SEC;
    }
    while n >= kk.sec + SEC {
        kk.sec += SEC;
    }
    (*t).tv_sec = (kk.sec / SEC) as i64;
    (*t).tv_nsec = (n - kk.sec) as i64;
    0
}
unsafe fn ts_ns(t: *const timespec) -> u64 {
    if (*t).tv_sec >= 1 << 32 { return u64::MAX; }
    (*t).tv_sec as u64 * SEC + (*t).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn simos_nanosleep(t: *const timespec, _rem: *mut timespec) -> c_int {
    sleep(ts_ns(t));
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_clock_nanosleep(_c: clockid_t, f: c_int, t: *const timespec, _rem: *mut timespec) -> c_int {
    if f & TIMER_ABSTIME != 0 {
        block(&[], ts_ns(t));
    } else {
        sleep(ts_ns(t));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_sched_yield() -> c_int {
    to_back();
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_yield_point(kind: u32) {
    yield_point(kind);
}

// ------------------------------------------------------------------ threads
extern "C" fn tmain(p: *mut u8) {
    let i = p as usize;
    unsafe {
        let f: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(k().th[i].start);
        let r = f(k().th[i].arg as *mut c_void);
        k().th[i].ret = r as usize;
        while let Some((d, o)) = k().th[i].dtors.pop() {
            let d: extern "C" fn(*mut c_void) = std::mem::transmute(d);
            d(o as *mut c_void);
        }
        for _ in 0..4 {
            let l = std::mem::take(&mut k().th[i].tls);
            for (key, v) in l {
                let d = k().key_dtors.get(key as usize).copied().unwrap_or(0);
                if d != 0 && v != 0 {
                    let d: extern "C" fn(*mut c_void) = std::mem::transmute(d);
                    d(v as *mut c_void);
                }
            }
            while let Some((d, o)) = k().th[i].dtors.pop() {
                let d: extern "C" fn(*mut c_void) = std::mem::transmute(d);
                d(o as *mut c_void);
            }
        }
    }
    thread_end();
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_create(
    t: *mut pthread_t,
    _a: *const pthread_attr_t,
    f: usize,
    arg: *mut c_void,
) -> c_int {
    yield_point(4);
    let i = new_th(0, f, arg as usize);
    let r = rt::rsym_thread_new(tmain, i as *mut u8);
    k().th[i].rt = r;
    *t = i as pthread_t;
    k().runq.push_back(i);
    yield_point(5);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    yield_point(4);
    let i = t as usize;
    while k().th[i].st != St::Done {
        block(&[k_thread(i)], u64::MAX);
    }
    if !r.is_null() {
        *r = k().th[i].ret as *mut c_void;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_detach(_t: pthread_t) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_setname_np(_t: pthread_t, n: *const c_char) -> c_int {
    let b = std::ffi::CStr::from_ptr(n).to_bytes();
    let me = k().cur;
    let l = b.len().min(15);
    k().th[me].name[..l].copy_from_slice(&b[..l]);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_self() -> pthread_t {
    if up() {
        k().cur as pthread_t
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_key_create(key: *mut pthread_key_t, d: usize) -> c_int {
    k().keyn += 1;
    k().key_dtors.resize(k().keyn as usize + 1, 0);
    let n = k().keyn;
    k().key_dtors[n as usize] = d;
    *key = n;
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_key_delete(_key: pthread_key_t) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pthread_setspecific(key: pthread_key_t, v: *const c_void) -> c_int {
    let me = k().cur;
    let t = &mut k().th[me].tls;
    for x in t.iter_mut() {
        if x.0 == key {
            x.1 = v as usize;
            return 0;
        }
    }
    t.push((key, v as usize));
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos___cxa_thread_atexit_impl(d: usize, o: *mut c_void, _dso: *mut c_void) -> c_int {
    if !up() {
        return 0;
    }
    let me = k().cur;
    k().th[me].dtors.push((d, o as usize));
    0
}
macro_rules! zero {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n() -> c_int { 0 })* }
}
zero! {
    simos_pthread_attr_init simos_pthread_attr_destroy simos_pthread_attr_setstacksize
    simos_pthread_attr_getguardsize simos_pthread_attr_getstack simos_pthread_getattr_np
    simos_munmap simos_mprotect simos_sigaltstack simos_getauxval simos_dl_iterate_phdr
    simos_setuid simos_setgid simos_setgroups simos_setpgid simos_grantpt simos_unlockpt
}
static mut PAGE: [u8; 65536] = [0; 65536];
#[no_mangle]
pub unsafe extern "C" fn simos_mmap64() -> *mut c_void {
    &raw mut PAGE as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn simos_sysconf(n: c_int) -> c_long {
    match n {
        _SC_PAGESIZE => 4096,
        _SC_NPROCESSORS_ONLN => 2,
        _SC_OPEN_MAX => 64,
        _SC_GETPW_R_SIZE_MAX => 1024,
        _ => -1,
    }
}
unsafe fn futex(a: *mut u32, op: c_int, val: u32, t: *const timespec) -> c_long {
    let key = a as u64;
    match op & 0x7f {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            if *a != val {
                return el(EAGAIN) as c_long;
            }
            let d = if t.is_null() {
                u64::MAX
            } else if op & 0x7f == FUTEX_WAIT {
                after(ts_ns(t))
            } else {
                ts_ns(t)
            };
            if block(&[key], d) {
                0
            } else {
                el(ETIMEDOUT) as c_long
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => wake(key, val as i32 as usize) as c_long,
        _ => rt::fail("unmodelled futex operation"),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_syscall(nr: c_long, a: usize, b: usize, c: usize, d: usize, _e: usize, _f: usize) -> c_long {
    match nr {
        SYS_getrandom => simos_getrandom(a as *mut u8, b, c as c_uint) as c_long,
        SYS_futex => futex(a as *mut u32, b as c_int, c as u32, d as *const timespec),
        SYS_close_range if k().no_close_range => e(ENOSYS) as c_long,
        SYS_close_range => simos_close_range(a as c_uint, b as c_uint, c as c_int) as c_long,
        SYS_gettid => k().cur as c_long + 1,
        _ => {
            rt::log(&format!("syscall {}", nr));
            rt::fail("unmodelled syscall")
        }
    }
}

// ------------------------------------------------------------------ descriptors
unsafe fn d_of(fd: c_int) -> Option<usize> {
    if fd < 0 || fd as usize >= k().fds.len() {
        return None;
    }
    k().fds[fd as usize]
}
unsafe fn obj(fd: c_int) -> Option<Obj> {
    d_of(fd).map(|d| k().desc[d].obj)
}
#[no_mangle]
pub unsafe extern "C" fn simos_close(fd: c_int) -> c_int {
    yield_point(4);
    match d_of(fd) {
        Some(d) => {
            k().fds[fd as usize] = None;
            // what the parent has is not affected
            if !k().in_child {
                drop_desc(d);
            }
            0
        }
        None => e(EBADF),
    }
}
unsafe fn dupfd(fd: c_int, from: usize) -> c_int {
    match d_of(fd) {
        Some(d) => {
            k().desc[d].refs += 1;
            new_fd(d, from)
        }
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_dup2(a: c_int, b: c_int) -> c_int {
    match d_of(a) {
        Some(d) => {
            if a == b {
                return b;
            }
            k().desc[d].refs += 1;
            if let Some(o) = d_of(b) {
                k().fds[b as usize] = None;
                if !k().in_child {
                    drop_desc(o);
                }
            }
            new_fd(d, b as usize)
        }
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let d = match d_of(fd) {
        Some(d) => d,
        None => return e(EBADF),
    };
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => cloexec(dupfd(fd, arg), cmd == F_DUPFD_CLOEXEC),
        F_GETFD => k().cloexec[fd as usize] as c_int * FD_CLOEXEC,
        F_SETFD => {
            k().cloexec[fd as usize] = arg as c_int & FD_CLOEXEC != 0;
            0
        }
        F_GETFL => {
            if k().desc[d].nonblock {
                O_RDWR | O_NONBLOCK
            } else {
                O_RDWR
            }
        }
        F_SETFL => {
            k().desc[d].nonblock = arg as c_int & O_NONBLOCK != 0;
            0
        }
        _ => rt::fail("unmodelled fcntl"),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    yield_point(4);
    let d = match d_of(fd) {
        Some(d) => d,
        None => return e(EBADF),
    };
    match req {
        FIONBIO => {
            k().desc[d].nonblock = *(arg as *const c_int) != 0;
            0
        }
        TIOCSWINSZ => {
            let w = &*(arg as *const winsize);
            match k().desc[d].obj {
                Obj::Master(p) | Obj::Slave(p) => {
                    let now = k().now;
                    k().ptys[p].winsize = (w.ws_row, w.ws_col, w.ws_xpixel, w.ws_ypixel);
                    k().ptys[p].winlog.push((now, [w.ws_row, w.ws_col, w.ws_xpixel, w.ws_ypixel]));
                    0
                }
                Obj::Console(i) if con_tty(i) => {
                    k().con_size = [w.ws_row, w.ws_col, w.ws_xpixel, w.ws_ypixel];
                    0
                }
                _ => e(ENOTTY),
            }
        }
        TIOCGWINSZ => {
            let w = &mut *(arg as *mut winsize);
            match k().desc[d].obj {
                Obj::Master(p) | Obj::Slave(p) => {
                    let s = k().ptys[p].winsize;
                    (w.ws_row, w.ws_col, w.ws_xpixel, w.ws_ypixel) = s;
                    0
                }
                Obj::Console(i) if con_tty(i) => {
                    [w.ws_row, w.ws_col, w.ws_xpixel, w.ws_ypixel] = k().con_size;
                    0
                }
                _ => e(ENOTTY),
            }
        }
        _ => {
            rt::log(&format!("ioctl {:x}", req));
            rt::fail("unmodelled ioctl")
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_tcgetattr(fd: c_int, t: *mut termios) -> c_int {
    match obj(fd) {
        Some(Obj::Master(p)) | Some(Obj::Slave(p)) => {
            *t = k().ptys[p].termios;
            0
        }
        Some(Obj::Console(i)) if con_tty(i) => {
            *t = k().con_termios;
            0
        }
        Some(_) => e(ENOTTY),
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_tcsetattr(fd: c_int, _a: c_int, t: *const termios) -> c_int {
    match obj(fd) {
        Some(Obj::Master(p)) | Some(Obj::Slave(p)) => {
            k().ptys[p].termios = *t;
            0
        }
        Some(Obj::Console(i)) if con_tty(i) => {
            k().con_termios = *t;
            k().con_termlog.push(*t);
            0
        }
        Some(_) => e(ENOTTY),
        None => e(EBADF),
    }
}
fn con_tty(i: u8) -> bool {
    k().con_ttys >> i & 1 != 0
}
#[no_mangle]
pub unsafe extern "C" fn simos_isatty(fd: c_int) -> c_int {
    match obj(fd) {
        Some(Obj::Master(_)) | Some(Obj::Slave(_)) => 1,
        Some(Obj::Console(i)) if con_tty(i) => 1,
        _ => {
            e(ENOTTY);
            0
        }
    }
}

fn until(t: u64) -> u64 {
    if t == 0 {
        u64::MAX
    } else {
        after(t)
    }
}

unsafe fn sock_read(i: usize, d: usize, p: *mut u8, n: usize, peek: bool, nowait: bool) -> isize {
    let dl = until(k().socks[i].rto);
    loop {
        let s = &mut k().socks[i];
        if s.rx.len() > 0 {
            let mut n = n.min(s.rx.len());
            if k().short_reads && n > 1 && !k().th[k().cur].harness && rt::choose(2, "short") == 1 {
                n = 1;
            }
            let s = &mut k().socks[i];
            if peek {
                std::ptr::copy_nonoverlapping(s.rx.b.as_ptr().add(s.rx.h), p, n);
                return n as isize;
            }
            let r = s.rx.take(p, n);
            let peer = s.peer;
            if peer != usize::MAX {
                wake(k_sock(peer), usize::MAX);
            }
            return r as isize;
        }
        if s.reset {
            s.reset = false;
            return el(ECONNRESET);
        }
        if s.shut_rd {
            return 0;
        }
        if k().desc[d].nonblock || nowait {
            return el(EAGAIN);
        }
        if !block(&[k_sock(i)], dl) {
            return el(EAGAIN);
        }
    }
}
unsafe fn sock_write(i: usize, d: usize, p: *const u8, n: usize, nowait: bool) -> isize {
    let dl = until(k().socks[i].wto);
    let mut done = 0;
    loop {
        let s = &k().socks[i];
        let peer = s.peer;
        if s.shut_wr || peer == usize::MAX || !k().socks[peer].open {
            return if done > 0 { done as isize } else { el(EPIPE) };
        }
        let q = &mut k().socks[peer];
        let room = q.cap.saturating_sub(q.rx.len());
        let c = room.min(n - done);
        if c > 0 {
            q.rx.push(std::slice::from_raw_parts(p.add(done), c));
            done += c;
            wake(k_sock(peer), usize::MAX);
        }
        if done == n {
            return done as isize;
        }
        if k().desc[d].nonblock || nowait || !block(&[k_sock(i)], dl) {
            return if done > 0 { done as isize } else { el(EAGAIN) };
        }
    }
}
unsafe fn do_read(fd: c_int, p: *mut u8, n: usize, peek: bool, nowait: bool) -> isize {
    yield_point(4);
    let d = match d_of(fd) {
        Some(d) => d,
        None => return el(EBADF),
    };
    match k().desc[d].obj {
        Obj::Sock(i) => sock_read(i, d, p, n, peek, nowait),
        Obj::Master(t) => loop {
            let y = &mut k().ptys[t];
            if y.out.len() > 0 {
                let m = n.min(y.max_read);
                let r = y.out.take(p, m);
                wake(k_pty(t), usize::MAX);
                return r as isize;
            }
            if y.closed {
                return el(EIO);
            }
            if k().desc[d].nonblock {
                return el(EAGAIN);
            }
            block(&[k_pty(t)], u64::MAX);
        },
        Obj::File(i) => {
            let pos = k().desc[d].pos;
            let r = match &k().ino[i].node {
                Node::File(b) => {
                    let m = n.min(b.len().saturating_sub(pos));
                    std::ptr::copy_nonoverlapping(b.as_ptr().add(pos.min(b.len())), p, m);
                    m
                }
                _ => return el(EINVAL),
            };
            k().desc[d].pos += r;
            r as isize
        }
        Obj::Dir(_) => el(EISDIR),
        Obj::Null => 0,
        Obj::Console(0) => loop {
            if k().con_in.len() > 0 {
                return k().con_in.take(p, n) as isize;
            }
            if k().con_eof {
                return 0;
            }
            block(&[K_CON], u64::MAX);
        },
        _ => el(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_read(fd: c_int, p: *mut u8, n: usize) -> isize {
    do_read(fd, p, n, false, false)
}
#[no_mangle]
pub unsafe extern "C" fn simos_recv(fd: c_int, p: *mut u8, n: usize, fl: c_int) -> isize {
    do_read(fd, p, n, fl & MSG_PEEK != 0, fl & MSG_DONTWAIT != 0)
}
unsafe fn do_write(fd: c_int, p: *const u8, n: usize, nowait: bool) -> isize {
    if !up() {
        return if fd <= 2 { n as isize } else { -1 };
    }
    yield_point(4);
    let d = match d_of(fd) {
        Some(d) => d,
        None => return el(EBADF),
    };
    match k().desc[d].obj {
        Obj::Sock(i) => sock_write(i, d, p, n, nowait),
        Obj::Master(t) => loop {
            let y = &mut k().ptys[t];
            let room = y.in_cap.saturating_sub(y.inp.len());
            let c = room.min(n);
            if c > 0 || n == 0 {
                y.inp.push(std::slice::from_raw_parts(p, c));
                wake(k_pty(t), usize::MAX);
                return c as isize;
            }
            // the other side being closed does not end this (checked on Linux 6.18)
            block(&[k_pty(t)], u64::MAX);
        },
        Obj::File(i) => {
            let pos = k().desc[d].pos;
            let app = k().desc[d].append;
            if let Node::File(b) = &mut k().ino[i].node {
                let at = if app { b.len() } else { pos };
                if b.len() < at + n {
                    b.resize(at + n, 0);
                }
                std::ptr::copy_nonoverlapping(p, b.as_mut_ptr().add(at), n);
                k().desc[d].pos = at + n;
                n as isize
            } else {
                el(EINVAL)
            }
        }
        Obj::Console(1) => loop {
            let c = n.min(k().con_room);
            if c == 0 && n > 0 {
                block(&[K_CON], u64::MAX);
                continue;
            }
            if k().con_room != usize::MAX {
                k().con_room -= c;
            }
            k().con_out.extend_from_slice(std::slice::from_raw_parts(p, c));
            wake(K_CON, usize::MAX);
            return c as isize;
        },
        Obj::Console(2) => {
            if k().th[k().cur].proc != 0 {
                k().con_err.extend_from_slice(std::slice::from_raw_parts(p, n));
            }
            n as isize
        }
        Obj::Console(_) | Obj::Null => n as isize,
        Obj::Slave(_) if k().in_child => n as isize,
        _ => el(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_write(fd: c_int, p: *const u8, n: usize) -> isize {
    do_write(fd, p, n, false)
}
#[no_mangle]
pub unsafe extern "C" fn simos_send(fd: c_int, p: *const u8, n: usize, fl: c_int) -> isize {
    do_write(fd, p, n, fl & MSG_DONTWAIT != 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_writev(fd: c_int, v: *const iovec, n: c_int) -> isize {
    let mut b: Vec<u8> = vec![];
    for i in 0..n as usize {
        let x = &*v.add(i);
        b.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    do_write(fd, b.as_ptr(), b.len(), false)
}

unsafe fn revents(f: &pollfd) -> i16 {
    let d = match d_of(f.fd) {
        Some(d) => d,
        None => return if f.fd < 0 { 0 } else { POLLNVAL },
    };
    let mut r = 0;
    match k().desc[d].obj {
        Obj::Sock(i) => {
            let s = &k().socks[i];
            if s.rx.len() > 0 || s.shut_rd {
                r |= POLLIN;
            }
            if s.shut_rd && !s.is_pipe {
                r |= POLLRDHUP;
            }
            if s.shut_rd && s.shut_wr {
                r |= POLLHUP;
            }
            if s.reset {
                r |= POLLERR;
            }
            if s.peer != usize::MAX {
                let q = &k().socks[s.peer];
                if s.shut_wr || q.rx.len() < q.cap {
                    r |= POLLOUT;
                }
            }
            if s.is_pipe && s.rx.len() == 0 && s.shut_rd {
                r = POLLHUP;
            }
        }
        Obj::Listener(i) => {
            if !k().lst[i].q.is_empty() {
                r |= POLLIN;
            }
        }
        Obj::Master(t) => {
            let y = &k().ptys[t];
            if y.out.len() > 0 {
                r |= POLLIN;
            }
            if y.closed {
                r |= POLLHUP;
            }
            if y.inp.len() < y.in_cap {
                r |= POLLOUT;
            }
        }
        Obj::Console(0) => {
            if k().con_in.len() > 0 || k().con_eof {
                r |= POLLIN;
            }
        }
        _ => r |= POLLIN | POLLOUT,
    }
    r & (f.events | POLLERR | POLLHUP | POLLNVAL)
}
#[no_mangle]
pub unsafe extern "C" fn simos_poll(f: *mut pollfd, n: nfds_t, ms: c_int) -> c_int {
    yield_point(4);
    let dl = if ms < 0 { u64::MAX } else { after(ms as u64 * MS) };
    loop {
        let mut c = 0;
        for i in 0..n as usize {
            let p = &mut *f.add(i);
            p.revents = revents(p);
            if p.revents != 0 {
                c += 1;
            }
        }
        if c > 0 || ms == 0 || k().now >= dl {
            return c;
        }
        let mut keys = vec![];
        for i in 0..n as usize {
            if let Some(o) = obj((*f.add(i)).fd) {
                match o {
                    Obj::Sock(i) => keys.push(k_sock(i)),
                    Obj::Listener(i) => keys.push(k_lst(i)),
                    Obj::Master(i) => keys.push(k_pty(i)),
                    Obj::Console(_) => keys.push(K_CON),
                    _ => {}
                }
            }
        }
        block(&keys, dl);
    }
}

// ------------------------------------------------------------------ sockets
#[no_mangle]
pub unsafe extern "C" fn simos_socket(_d: c_int, t: c_int, _p: c_int) -> c_int {
    let d = new_desc(Obj::Unbound);
    cloexec(new_fd(d, 0), t & SOCK_CLOEXEC != 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_socketpair(_d: c_int, t: c_int, _p: c_int, o: *mut c_int) -> c_int {
    let cr = (k().pid, k().uid);
    let (a, b) = (new_sock(cr), new_sock(cr));
    pair(a, b);
    let (da, db) = (new_desc(Obj::Sock(a)), new_desc(Obj::Sock(b)));
    for d in [da, db] {
        k().desc[d].nonblock = t & SOCK_NONBLOCK != 0;
    }
    *o = cloexec(new_fd(da, 0), t & SOCK_CLOEXEC != 0);
    *o.add(1) = cloexec(new_fd(db, 0), t & SOCK_CLOEXEC != 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_pipe2(o: *mut c_int, fl: c_int) -> c_int {
    simos_socketpair(0, if fl & O_NONBLOCK != 0 { SOCK_NONBLOCK } else { 0 }, 0, o);
    for i in 0..2 {
        if let Some(Obj::Sock(s)) = obj(*o.add(i)) {
            k().socks[s].is_pipe = true;
            k().socks[s].cap = if i == 0 { 65536 } else { 0 };
        }
    }
    0
}
unsafe fn sun(a: *const sockaddr) -> String {
    let a = &*(a as *const sockaddr_un);
    let mut s = vec![];
    for c in a.sun_path {
        if c == 0 {
            break;
        }
        s.push(c as u8);
    }
    String::from_utf8_lossy(&s).into_owned()
}
#[no_mangle]
pub unsafe extern "C" fn simos_bind(fd: c_int, a: *const sockaddr, _l: socklen_t) -> c_int {
    let path = sun(a);
    match lookup(&path, true) {
        Err(x) => e(x),
        Ok(f) if f.ino.is_some() => e(EADDRINUSE),
        Ok(f) => {
            let l = k().lst.len();
            let i = mknode(Node::Sock(l), S_IFSOCK | (0o777 & !k().umask));
            dir_put(f.dir, &f.name, i);
            fslog("bind", &f.real);
            k().lst.push(Lst { q: Default::default(), open: false, ino: i });
            let d = d_of(fd).unwrap();
            k().desc[d].obj = Obj::Listener(l);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_listen(fd: c_int, _n: c_int) -> c_int {
    match obj(fd) {
        Some(Obj::Listener(l)) => {
            k().lst[l].open = true;
            0
        }
        _ => e(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_connect(fd: c_int, a: *const sockaddr, _l: socklen_t) -> c_int {
    yield_point(4);
    let path = sun(a);
    let i = match lookup(&path, true) {
        Err(x) => return e(x),
        Ok(f) => match f.ino {
            None => return e(ENOENT),
            Some(i) => i,
        },
    };
    let l = match k().ino[i].node {
        Node::Sock(l) => l,
        _ => return e(ECONNREFUSED),
    };
    if !k().lst[l].open {
        return e(ECONNREFUSED);
    }
    let mine = k().cred;
    let daemon = (k().pid, k().uid);
    let c = new_sock(daemon);
    let s = new_sock(mine);
    pair(c, s);
    let d = d_of(fd).unwrap();
    k().desc[d].obj = Obj::Sock(c);
    k().lst[l].q.push_back(s);
    wake(k_lst(l), usize::MAX);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_accept4(fd: c_int, a: *mut sockaddr, al: *mut socklen_t, flags: c_int) -> c_int {
    yield_point(4);
    let d = match d_of(fd) {
        Some(d) => d,
        None => return e(EBADF),
    };
    let l = match k().desc[d].obj {
        Obj::Listener(l) => l,
        _ => return e(EINVAL),
    };
    loop {
        if let Some(s) = k().lst[l].q.pop_front() {
            if !a.is_null() {
                (*a).sa_family = AF_UNIX as u16;
                *al = 2;
            }
            let d = new_desc(Obj::Sock(s));
            return cloexec(new_fd(d, 0), flags & SOCK_CLOEXEC != 0);
        }
        if k().desc[d].nonblock {
            return e(EAGAIN);
        }
        block(&[k_lst(l)], u64::MAX);
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_shutdown(fd: c_int, how: c_int) -> c_int {
    yield_point(4);
    match obj(fd) {
        Some(Obj::Sock(i)) => {
            let p = k().socks[i].peer;
            if how == SHUT_RD || how == SHUT_RDWR {
                k().socks[i].shut_rd = true;
                if p != usize::MAX {
                    k().socks[p].shut_wr = true;
                }
            }
            if how == SHUT_WR || how == SHUT_RDWR {
                k().socks[i].shut_wr = true;
                if p != usize::MAX {
                    k().socks[p].shut_rd = true;
                }
            }
            wake(k_sock(i), usize::MAX);
            if p != usize::MAX {
                wake(k_sock(p), usize::MAX);
            }
            0
        }
        Some(_) => e(ENOTCONN),
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_setsockopt(fd: c_int, _l: c_int, o: c_int, v: *const c_void, _n: socklen_t) -> c_int {
    match obj(fd) {
        Some(Obj::Sock(i)) => {
            let t = &*(v as *const timeval);
            match o {
                SO_RCVTIMEO => k().socks[i].rto = t.tv_sec as u64 * SEC + t.tv_usec as u64 * 1000,
                SO_SNDTIMEO => k().socks[i].wto = t.tv_sec as u64 * SEC + t.tv_usec as u64 * 1000,
                _ => {}
            }
            0
        }
        Some(_) => 0,
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_getsockopt(fd: c_int, _l: c_int, o: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int {
    match (obj(fd), o) {
        (Some(Obj::Sock(i)), SO_PEERCRED) => {
            let c = &mut *(v as *mut ucred);
            let cr = k().socks[i].cred;
            c.pid = cr.0;
            c.uid = cr.1;
            c.gid = k().peer_gid;
            *n = std::mem::size_of::<ucred>() as u32;
            0
        }
        (Some(Obj::Sock(i)), SO_RCVTIMEO) | (Some(Obj::Sock(i)), SO_SNDTIMEO) => {
            let t = &mut *(v as *mut timeval);
            let x = if o == SO_RCVTIMEO { k().socks[i].rto } else { k().socks[i].wto };
            t.tv_sec = (x / SEC) as i64;
            t.tv_usec = (x % SEC / 1000) as i64;
            0
        }
        (Some(_), SO_ERROR) => {
            *(v as *mut c_int) = 0;
            0
        }
        (Some(_), SO_ACCEPTCONN) => {
            *(v as *mut c_int) = 1;
            0
        }
        (Some(_), SO_TYPE) => {
            *(v as *mut c_int) = SOCK_STREAM;
            0
        }
        (None, _) => e(EBADF),
        _ => e(ENOPROTOOPT),
    }
}

// ------------------------------------------------------------------ processes
#[no_mangle]
pub unsafe extern "C" fn simos_fork() -> c_int {
    if k().fail_fork {
        return e(EAGAIN);
    }
    let pid = match k().next_pid_hint.pop() {
        Some(p) => p,
        None => {
            k().next_pid += 1;
            k().next_pid
        }
    };
    // the pty opened last is the child's terminal, if it has no owner yet
    let mut pty = None;
    if let Some(i) = k().ptys.len().checked_sub(1) {
        if k().ptys[i].pid == 0 {
            k().ptys[i].pid = pid;
            k().ptys[i].slave = true;
            pty = Some(i);
        }
    }
    let hup = k().next_hup;
    let comm = k().comm.clone();
    k().procs.push(Proc {
        pid,
        st: P::Alive,
        hup,
        term: Hup::Ignore,
        comm,
        exe: String::from("/bin/bash"),
        sigs: vec![],
        late: vec![],
        pty,
    });
    if let Some(h) = k().fork_hook {
        if h() {
            if k().fork_real {
                let me = k().cur;
                let p = k().th[me].proc;
                for i in 0..k().th.len() {
                    if i != me && k().th[i].proc == p && !k().th[i].harness {
                        k().th[i].st = St::Done;
                        k().th[i].keys.clear();
                        k().runq.retain(|x| *x != i);
                    }
                }
                k().pid = pid;
                return 0;
            }
            k().in_child = true;
            return 0;
        }
    }
    pid
}
#[no_mangle]
pub unsafe extern "C" fn simos_umask(m: c_uint) -> c_uint {
    std::mem::replace(&mut k().umask, m & 0o777)
}
#[no_mangle]
pub unsafe extern "C" fn simos_flock(fd: c_int, op: c_int) -> c_int {
    yield_point(4);
    let d = match d_of(fd) {
        Some(d) => d,
        None => return e(EBADF),
    };
    let i = match k().desc[d].obj {
        Obj::File(i) => i,
        _ => return e(EINVAL),
    };
    k().flocks.retain(|l| *l != (i, d));
    if op & LOCK_UN != 0 {
        return 0;
    }
    if k().flocks.iter().any(|l| l.0 == i) {
        if op & LOCK_NB == 0 {
            rt::fail("a lock is waited for");
        }
        return e(EWOULDBLOCK);
    }
    k().flocks.push((i, d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_ftruncate64(fd: c_int, n: i64) -> c_int {
    match obj(fd) {
        Some(Obj::File(i)) => {
            if let Node::File(b) = &mut k().ino[i].node {
                b.resize(n as usize, 0);
            }
            0
        }
        _ => e(EINVAL),
    }
}
/// What is to become of the descriptors of a program to be started.
static mut ACTIONS: Vec<(c_int, c_int)> = Vec::new();
#[no_mangle]
pub unsafe extern "C" fn simos_gnu_get_libc_version() -> *const c_char {
    c"2.39".as_ptr()
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn simos_posix_spawn_file_actions_init(_a: *mut c_void) -> c_int {
    ACTIONS.clear();
    0
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn simos_posix_spawn_file_actions_adddup2(_a: *mut c_void, fd: c_int, to: c_int) -> c_int {
    ACTIONS.push((fd, to));
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawn_file_actions_destroy(_a: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawnattr_init(_a: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawnattr_destroy(_a: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawnattr_setflags(_a: *mut c_void, _f: i16) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawnattr_setpgroup(_a: *mut c_void, _g: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawnattr_setsigmask(_a: *mut c_void, _s: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_posix_spawnattr_setsigdefault(_a: *mut c_void, _s: *const c_void) -> c_int {
    0
}
unsafe fn words(mut p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while !(*p).is_null() {
        v.push(std::ffi::CStr::from_ptr(*p).to_bytes().to_vec());
        p = p.add(1);
    }
    v
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn simos_posix_spawnp(
    pid: *mut c_int,
    path: *const c_char,
    _a: *const c_void,
    _t: *const c_void,
    argv: *const *const c_char,
    envp: *const *const c_char,
) -> c_int {
    yield_point(4);
    if k().fail_fork {
        return EAGAIN;
    }
    k().next_pid += 1;
    *pid = k().next_pid;
    let mut io = [obj(0), obj(1), obj(2)];
    for (fd, to) in ACTIONS.iter() {
        if (0..3).contains(to) {
            io[*to as usize] = obj(*fd);
        }
    }
    let env = if envp.is_null() { environ } else { envp };
    k().spawned.push(Spawned { path: cs(path), args: words(argv), env: words(env), io });
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_setsid() -> c_int {
    k().own_sid = k().in_child || k().fork_real;
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_close_range(a: c_uint, b: c_uint, flags: c_int) -> c_int {
    let n = k().fds.len() as c_uint;
    let mut i = a;
    while i <= b && i < n {
        if flags as c_uint & CLOSE_RANGE_CLOEXEC != 0 {
            k().cloexec[i as usize] = true;
        } else {
            simos_close(i as c_int);
        }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int {
    yield_point(4);
    loop {
        let i = match proc_ix(pid) {
            Some(i) => i,
            None => return e(ECHILD),
        };
        match k().procs[i].st {
            P::Reaped => return e(ECHILD),
            P::Zombie(s) => {
                k().procs[i].st = P::Reaped;
                if !st.is_null() {
                    *st = s;
                }
                return pid;
            }
            P::Alive => {
                if opt & WNOHANG != 0 {
                    return 0;
                }
                block(&[k_proc(pid)], u64::MAX);
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_kill(pid: c_int, sig: c_int) -> c_int {
    yield_point(4);
    match signal(pid, sig) {
        0 => 0,
        x => e(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_raise(sig: c_int) -> c_int {
    deliver(sig);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_getpid() -> c_int {
    k().pid
}
#[no_mangle]
pub unsafe extern "C" fn simos_getuid() -> uid_t {
    k().uid
}
#[no_mangle]
pub unsafe extern "C" fn simos_geteuid() -> uid_t {
    k().uid
}
#[no_mangle]
pub unsafe extern "C" fn simos_exit(c: c_int) -> ! {
    if k().th[k().cur].proc != 0 {
        end_proc(c);
    }
    if let Some(h) = k().exit_hook {
        h(c);
        rt::end();
    }
    rt::fail("the process exits")
}
#[no_mangle]
pub unsafe extern "C" fn simos__exit(c: c_int) -> ! {
    simos_exit(c)
}
#[no_mangle]
pub unsafe extern "C" fn simos_execvp(p: *const c_char, argv: *const *const c_char) -> c_int {
    if let Some(h) = k().exec_hook {
        h(p, argv, environ);
        rt::end();
    }
    rt::fail("exec without a hook")
}
static mut PWBUF: [u8; 256] = [0; 256];
#[no_mangle]
pub unsafe extern "C" fn simos_getpwuid_r(
    uid: uid_t,
    pw: *mut passwd,
    buf: *mut c_char,
    n: usize,
    out: *mut *mut passwd,
) -> c_int {
    let (u, h, s) = k().passwd;
    let mut at = 0;
    let mut put = |x: &str| {
        let p = buf.add(at);
        for b in x.bytes() {
            *buf.add(at) = b as c_char;
            at += 1;
        }
        *buf.add(at) = 0;
        at += 1;
        p
    };
    if n < 200 {
        return ERANGE;
    }
    (*pw).pw_name = put(u);
    (*pw).pw_dir = put(h);
    (*pw).pw_shell = put(s);
    (*pw).pw_passwd = put("");
    (*pw).pw_gecos = put("");
    (*pw).pw_uid = uid;
    (*pw).pw_gid = uid;
    *out = pw;
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_sigaction(sig: c_int, new: *const sigaction, old: *mut sigaction) -> c_int {
    yield_point(4);
    let mut prev: sigaction = std::mem::zeroed();
    for x in k().sighandlers.iter() {
        if x.0 == sig {
            prev = x.1;
        }
    }
    if !old.is_null() {
        *old = prev;
    }
    if !new.is_null() {
        k().sighandlers.retain(|x| x.0 != sig);
        k().sighandlers.push((sig, *new));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_signal(_sig: c_int, _h: usize) -> usize {
    0
}

// ------------------------------------------------------------------ ptys
unsafe fn open_ptmx() -> c_int {
    let mut t: termios = std::mem::zeroed();
    t.c_lflag = ECHO | ICANON | ISIG;
    k().ptys.push(Pty {
        out: Q::new(),
        inp: Q::new(),
        slave: false,
        closed: false,
        master: true,
        winsize: (0, 0, 0, 0),
        winlog: vec![],
        termios: t,
        max_read: 4095,
        in_cap: 1 << 20,
        pid: 0,
    });
    let p = k().ptys.len() - 1;
    let d = new_desc(Obj::Master(p));
    new_fd(d, 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_ptsname_r(fd: c_int, b: *mut c_char, _n: usize) -> c_int {
    match obj(fd) {
        Some(Obj::Master(p)) => {
            let s = format!("/dev/pts/{p}\0");
            std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, b, s.len());
            0
        }
        _ => ENOTTY,
    }
}

// ------------------------------------------------------------------ files
unsafe fn do_open(path: &str, fl: c_int, mode: c_int) -> c_int {
    yield_point(4);
    if path == "/dev/ptmx" {
        return cloexec(open_ptmx(), fl & O_CLOEXEC != 0);
    }
    if path == "/dev/null" {
        let d = new_desc(Obj::Null);
        return cloexec(new_fd(d, 0), fl & O_CLOEXEC != 0);
    }
    if let Some(n) = path.strip_prefix("/dev/pts/") {
        let p: usize = n.parse().unwrap_or(usize::MAX);
        if p >= k().ptys.len() {
            return e(ENOENT);
        }
        let d = new_desc(Obj::Slave(p));
        return cloexec(new_fd(d, 0), fl & O_CLOEXEC != 0);
    }
    if let Some(r) = path.strip_prefix("/proc/") {
        // /proc/<pid>/comm
        let mut it = r.split('/');
        let pid: i32 = it.next().unwrap_or("").parse().unwrap_or(-1);
        return match (proc_ix(pid), it.next()) {
            (Some(i), Some(f @ ("comm" | "status"))) => {
                let mut c = k().procs[i].comm.clone().into_bytes();
                c.push(b'\n');
                if f == "status" {
                    c.splice(0..0, *b"Name:\t");
                    c.extend_from_slice(b"Umask:\t0022\n");
                }
                let i = mknode(Node::File(c), S_IFREG | 0o444);
                let d = new_desc(Obj::File(i));
                cloexec(new_fd(d, 0), fl & O_CLOEXEC != 0)
            }
            _ => e(ENOENT),
        };
    }
    let f = match lookup(path, fl & O_NOFOLLOW == 0) {
        Ok(f) => f,
        Err(x) => return e(x),
    };
    let i = match f.ino {
        Some(i) => {
            if fl & O_CREAT != 0 && fl & O_EXCL != 0 {
                return e(EEXIST);
            }
            if k().ino[i].mode & 0o400 == 0 {
                return e(EACCES);
            }
            i
        }
        None => {
            if fl & O_CREAT == 0 {
                return e(ENOENT);
            }
            let i = mknode(Node::File(vec![]), S_IFREG | (mode as u32 & 0o777 & !k().umask));
            dir_put(f.dir, &f.name, i);
            i
        }
    };
    let w = fl & O_ACCMODE != O_RDONLY;
    if w {
        fslog("write", &f.real);
    }
    let o = match &mut k().ino[i].node {
        Node::File(b) => {
            if fl & O_TRUNC != 0 {
                b.clear();
            }
            Obj::File(i)
        }
        Node::Dir(_) => {
            if w {
                return e(EISDIR);
            }
            Obj::Dir(i)
        }
        Node::Dev(o) => *o,
        Node::Sock(_) => return e(ENXIO),
        Node::Link(_) => return e(ELOOP),
    };
    let d = new_desc(o);
    k().desc[d].append = fl & O_APPEND != 0;
    cloexec(new_fd(d, 0), fl & O_CLOEXEC != 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    do_open(&cs(p), fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn simos_open(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    do_open(&cs(p), fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn simos_lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    match d_of(fd) {
        Some(d) => {
            if let Obj::File(i) = k().desc[d].obj {
                let len = if let Node::File(b) = &k().ino[i].node { b.len() } else { 0 };
                let base = match wh {
                    SEEK_SET => 0,
                    SEEK_CUR => k().desc[d].pos as i64,
                    _ => len as i64,
                };
                k().desc[d].pos = (base + off) as usize;
                base + off
            } else {
                e(ESPIPE) as i64
            }
        }
        None => e(EBADF) as i64,
    }
}
unsafe fn fill(st: *mut stat64, i: usize) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    let n = &k().ino[i];
    let (ty, size) = match &n.node {
        Node::File(b) => (S_IFREG, b.len()),
        Node::Dir(_) => (S_IFDIR, 0),
        Node::Link(t) => (S_IFLNK, t.len()),
        Node::Sock(_) => (S_IFSOCK, 0),
        Node::Dev(_) => (S_IFCHR, 0),
    };
    (*st).st_mode = ty | (n.mode & 0o7777);
    (*st).st_size = size as i64;
    (*st).st_ino = i as u64 + 10;
    (*st).st_uid = n.uid;
    (*st).st_gid = n.uid;
    (*st).st_nlink = n.nlink as u64;
}
unsafe fn do_stat(p: *const c_char, st: *mut stat64, follow: bool) -> c_int {
    yield_point(4);
    match lookup(&cs(p), follow) {
        Err(x) => e(x),
        Ok(Found { ino: None, .. }) => e(ENOENT),
        Ok(Found { ino: Some(i), .. }) => {
            fill(st, i);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_stat64(p: *const c_char, st: *mut stat64) -> c_int {
    do_stat(p, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn simos_lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    do_stat(p, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn simos_fstat64(fd: c_int, st: *mut stat64) -> c_int {
    match obj(fd) {
        Some(Obj::File(i)) | Some(Obj::Dir(i)) => {
            fill(st, i);
            0
        }
        Some(o) => {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
            let sock = matches!(o, Obj::Unbound | Obj::Listener(_) | Obj::Sock(_));
            (*st).st_mode = if sock { S_IFSOCK } else { S_IFCHR } | 0o600;
            0
        }
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_fstat(fd: c_int, st: *mut stat64) -> c_int {
    simos_fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn simos_statx(_d: c_int, _p: *const c_char, _f: c_int, _m: c_uint, _b: *mut c_void) -> c_int {
    e(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn simos_mkdir(p: *const c_char, mode: mode_t) -> c_int {
    yield_point(4);
    match lookup(&cs(p), true) {
        Err(x) => e(x),
        Ok(f) if f.ino.is_some() => e(EEXIST),
        Ok(f) => {
            fslog("mkdir", &f.real);
            let i = mknode(Node::Dir(vec![]), S_IFDIR | (mode & 0o777 & !k().umask));
            dir_put(f.dir, &f.name, i);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_unlink(p: *const c_char) -> c_int {
    yield_point(4);
    match lookup(&cs(p), false) {
        Err(x) => e(x),
        Ok(Found { ino: None, .. }) => e(ENOENT),
        Ok(f) => {
            if let Node::Dir(_) = k().ino[f.ino.unwrap()].node {
                return e(EISDIR);
            }
            fslog("unlink", &f.real);
            dir_del(f.dir, &f.name);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_symlink(t: *const c_char, p: *const c_char) -> c_int {
    yield_point(4);
    match lookup(&cs(p), false) {
        Err(x) => e(x),
        Ok(f) if f.ino.is_some() => e(EEXIST),
        Ok(f) => {
            fslog("symlink", &f.real);
            let i = mknode(Node::Link(cs(t)), S_IFLNK | 0o777);
            dir_put(f.dir, &f.name, i);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_chmod(p: *const c_char, mode: mode_t) -> c_int {
    match lookup(&cs(p), true) {
        Err(x) => e(x),
        Ok(Found { ino: None, .. }) => e(ENOENT),
        Ok(f) => {
            fslog("chmod", &f.real);
            let i = f.ino.unwrap();
            k().ino[i].mode = k().ino[i].mode & !0o7777 | mode & 0o7777;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
    let path = cs(p);
    let t = if let Some(r) = path.strip_prefix("/proc/") {
        if r.ends_with("/exe") {
            let pid: i32 = r[..r.len() - 4].parse().unwrap_or(-1);
            // the daemon itself, and the processes of clients
            if r.starts_with("self") || pid == k().pid || (200..1000).contains(&pid) {
                String::from("/usr/bin/shpool")
            } else {
                match proc_ix(pid) {
                    Some(i) if k().procs[i].st == P::Alive => k().procs[i].exe.clone(),
                    _ => return el(ENOENT),
                }
            }
        } else {
            return el(ENOENT);
        }
    } else {
        match lookup(&path, false) {
            Err(x) => return el(x),
            Ok(Found { ino: None, .. }) => return el(ENOENT),
            Ok(f) => match &k().ino[f.ino.unwrap()].node {
                Node::Link(t) => t.clone(),
                _ => return el(EINVAL),
            },
        }
    };
    let m = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, b, m);
    m as isize
}
#[no_mangle]
pub unsafe extern "C" fn simos_realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    match lookup(&cs(p), true) {
        Ok(f) if f.ino.is_some() => {
            let o = if out.is_null() { malloc(f.real.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(f.real.as_ptr() as *const c_char, o, f.real.len());
            *o.add(f.real.len()) = 0;
            o
        }
        Ok(_) => {
            e(ENOENT);
            std::ptr::null_mut()
        }
        Err(x) => {
            e(x);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    let c = &k().cwd;
    if c.len() + 1 > n {
        e(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, b, c.len());
    *b.add(c.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn simos_chdir(p: *const c_char) -> c_int {
    match lookup(&cs(p), true) {
        Ok(f) if f.ino.is_some() => {
            k().cwd = f.real;
            0
        }
        Ok(_) => e(ENOENT),
        Err(x) => e(x),
    }
}
struct DirH {
    ents: Vec<(String, usize)>,
    pos: usize,
    ent: dirent64,
    fd: c_int,
}
#[no_mangle]
pub unsafe extern "C" fn simos_opendir(p: *const c_char) -> *mut c_void {
    match lookup(&cs(p), true) {
        Ok(Found { ino: Some(i), .. }) => match &k().ino[i].node {
            Node::Dir(es) => {
                let h = DirH { ents: es.clone(), pos: 0, ent: std::mem::zeroed(), fd: -1 };
                Box::into_raw(Box::new(h)) as *mut c_void
            }
            _ => {
                e(ENOTDIR);
                std::ptr::null_mut()
            }
        },
        Ok(_) => {
            e(ENOENT);
            std::ptr::null_mut()
        }
        Err(x) => {
            e(x);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_readdir64(h: *mut c_void) -> *mut dirent64 {
    let h = &mut *(h as *mut DirH);
    if h.pos >= h.ents.len() {
        return std::ptr::null_mut();
    }
    let (n, i) = &h.ents[h.pos];
    h.pos += 1;
    h.ent.d_ino = *i as u64 + 10;
    h.ent.d_type = match k().ino[*i].node {
        Node::File(_) => DT_REG,
        Node::Dir(_) => DT_DIR,
        Node::Link(_) => DT_LNK,
        Node::Sock(_) => DT_SOCK,
        Node::Dev(_) => DT_CHR,
    };
    for (j, b) in n.bytes().enumerate() {
        h.ent.d_name[j] = b as c_char;
    }
    h.ent.d_name[n.len()] = 0;
    &mut h.ent
}
#[no_mangle]
pub unsafe extern "C" fn simos_dirfd(h: *mut c_void) -> c_int {
    (*(h as *mut DirH)).fd
}
#[no_mangle]
pub unsafe extern "C" fn simos_closedir(h: *mut c_void) -> c_int {
    drop(Box::from_raw(h as *mut DirH));
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos___xpg_strerror_r(_n: c_int, b: *mut c_char, _l: usize) -> c_int {
    *b = b'?' as c_char;
    *b.add(1) = 0;
    0
}

#[repr(C)]
pub struct MemchrResult(u64, *const u8);
/// memchr's search, which otherwise picks an implementation by asking the processor.
#[no_mangle]
pub unsafe extern "C" fn simos_memchr_raw(n: u8, mut s: *const u8, e: *const u8) -> MemchrResult {
    while s < e {
        if *s == n {
            return MemchrResult(1, s);
        }
        s = s.add(1);
    }
    MemchrResult(0, s)
}
#[no_mangle]
pub unsafe extern "C" fn simos_sigemptyset(s: *mut u8) -> c_int {
    std::ptr::write_bytes(s, 0, 128);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_sigaddset(s: *mut u8, n: c_int) -> c_int {
    let b = (n - 1) as usize;
    *s.add(b / 8) |= 1 << (b % 8);
    0
}

// Calls the current code does not make, but changed code well might.
#[no_mangle]
pub unsafe extern "C" fn simos_getgid() -> gid_t {
    k().gid
}
#[no_mangle]
pub unsafe extern "C" fn simos_getegid() -> gid_t {
    k().gid
}
#[no_mangle]
pub unsafe extern "C" fn simos_getppid() -> c_int {
    1
}
#[no_mangle]
pub unsafe extern "C" fn simos_getpgrp() -> c_int {
    k().pid
}
#[no_mangle]
pub unsafe extern "C" fn simos_killpg(pid: c_int, sig: c_int) -> c_int {
    simos_kill(pid, sig)
}
unsafe fn on_fd(fd: c_int) -> c_int {
    match d_of(fd) {
        Some(_) => 0,
        None => e(EBADF),
    }
}
macro_rules! fd_noop {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(fd: c_int) -> c_int { on_fd(fd) })* }
}
fd_noop! { simos_fsync simos_fdatasync simos_tcdrain simos_tcflush simos_tcflow simos_syncfs }
#[no_mangle]
pub unsafe extern "C" fn simos_fchmod(fd: c_int, mode: mode_t) -> c_int {
    match obj(fd) {
        Some(Obj::File(i)) | Some(Obj::Dir(i)) => {
            k().ino[i].mode = k().ino[i].mode & !0o7777 | mode & 0o7777;
            0
        }
        Some(_) => 0,
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_rename(a: *const c_char, b: *const c_char) -> c_int {
    yield_point(4);
    let f = match lookup(&cs(a), false) {
        Err(x) => return e(x),
        Ok(f) => f,
    };
    let i = match f.ino {
        None => return e(ENOENT),
        Some(i) => i,
    };
    let t = match lookup(&cs(b), false) {
        Err(x) => return e(x),
        Ok(t) => t,
    };
    let dir = matches!(k().ino[i].node, Node::Dir(_));
    if let Some(j) = t.ino {
        if j == i {
            return 0;
        }
        match &k().ino[j].node {
            Node::Dir(_) if !dir => return e(EISDIR),
            Node::Dir(es) if !es.is_empty() => return e(ENOTEMPTY),
            Node::Dir(_) => {}
            _ if dir => return e(ENOTDIR),
            _ => {}
        }
    }
    fslog("unlink", &f.real);
    fslog("write", &t.real);
    dir_del(f.dir, &f.name);
    dir_del(t.dir, &t.name);
    dir_put(t.dir, &t.name, i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_link(a: *const c_char, b: *const c_char) -> c_int {
    yield_point(4);
    let i = match lookup(&cs(a), false) {
        Err(x) => return e(x),
        Ok(Found { ino: None, .. }) => return e(ENOENT),
        Ok(f) => f.ino.unwrap(),
    };
    match lookup(&cs(b), false) {
        Err(x) => e(x),
        Ok(t) if t.ino.is_some() => e(EEXIST),
        Ok(t) => {
            fslog("write", &t.real);
            k().ino[i].nlink += 1;
            dir_put(t.dir, &t.name, i);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_linkat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char, _f: c_int) -> c_int {
    simos_link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn simos_rmdir(p: *const c_char) -> c_int {
    yield_point(4);
    match lookup(&cs(p), false) {
        Err(x) => e(x),
        Ok(Found { ino: None, .. }) => e(ENOENT),
        Ok(f) => match &k().ino[f.ino.unwrap()].node {
            Node::Dir(es) if es.is_empty() => {
                fslog("unlink", &f.real);
                dir_del(f.dir, &f.name);
                0
            }
            Node::Dir(_) => e(ENOTEMPTY),
            _ => e(ENOTDIR),
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if d == AT_FDCWD {
        return if fl & AT_REMOVEDIR != 0 { simos_rmdir(p) } else { simos_unlink(p) };
    }
    yield_point(4);
    let dir = match obj(d) {
        Some(Obj::Dir(i)) => i,
        _ => return e(EBADF),
    };
    let n = cs(p);
    let i = match dir_get(dir, &n) {
        Some(i) => i,
        None => return e(ENOENT),
    };
    match (&k().ino[i].node, fl & AT_REMOVEDIR != 0) {
        (Node::Dir(es), true) if !es.is_empty() => return e(ENOTEMPTY),
        (Node::Dir(_), true) => {}
        (Node::Dir(_), false) => return e(EISDIR),
        (_, true) => return e(ENOTDIR),
        _ => {}
    }
    fslog("unlink", &n);
    dir_del(dir, &n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_openat64(d: c_int, p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    if d == AT_FDCWD {
        return do_open(&cs(p), fl, mode);
    }
    let dir = match obj(d) {
        Some(Obj::Dir(i)) => i,
        _ => return e(EBADF),
    };
    let i = match dir_get(dir, &cs(p)) {
        Some(i) => i,
        None => return e(ENOENT),
    };
    let o = match k().ino[i].node {
        Node::Dir(_) => Obj::Dir(i),
        _ if fl & O_DIRECTORY != 0 => return e(ENOTDIR),
        Node::File(_) => Obj::File(i),
        _ => return e(ELOOP),
    };
    let d = new_desc(o);
    cloexec(new_fd(d, 0), fl & O_CLOEXEC != 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_openat(d: c_int, p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    simos_openat64(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn simos_fdopendir(fd: c_int) -> *mut c_void {
    match obj(fd) {
        Some(Obj::Dir(i)) => {
            if let Node::Dir(es) = &k().ino[i].node {
                let h = DirH { ents: es.clone(), pos: 0, ent: std::mem::zeroed(), fd };
                return Box::into_raw(Box::new(h)) as *mut c_void;
            }
            e(ENOTDIR);
        }
        _ => {
            e(ENOTDIR);
        }
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn simos_access(p: *const c_char, _m: c_int) -> c_int {
    match lookup(&cs(p), true) {
        Err(x) => e(x),
        Ok(Found { ino: None, .. }) => e(ENOENT),
        Ok(_) => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_faccessat(_d: c_int, p: *const c_char, m: c_int, _f: c_int) -> c_int {
    simos_access(p, m)
}
unsafe fn no_name(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    match obj(fd) {
        Some(Obj::Sock(_)) | Some(Obj::Listener(_)) | Some(Obj::Unbound) => {
            (*a).sa_family = AF_UNIX as u16;
            *l = 2;
            0
        }
        Some(_) => e(ENOTSOCK),
        None => e(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    no_name(fd, a, l)
}
#[no_mangle]
pub unsafe extern "C" fn simos_getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    match obj(fd) {
        Some(Obj::Sock(s)) if k().socks[s].reset => e(ENOTCONN),
        Some(Obj::Sock(_)) => no_name(fd, a, l),
        _ => e(ENOTCONN),
    }
}
#[no_mangle]
pub unsafe extern "C" fn simos_accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    simos_accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_pipe(o: *mut c_int) -> c_int {
    simos_pipe2(o, 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_dup(a: c_int) -> c_int {
    simos_fcntl(a, F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn simos_dup3(a: c_int, b: c_int, fl: c_int) -> c_int {
    if a == b {
        return e(EINVAL);
    }
    let r = simos_dup2(a, b);
    if r >= 0 {
        return cloexec(r, fl & O_CLOEXEC != 0);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn simos_usleep(us: c_uint) -> c_int {
    sleep(us as u64 * 1000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_setenv(name: *const c_char, val: *const c_char, over: c_int) -> c_int {
    if over == 0 && !simos_getenv(name).is_null() {
        return 0;
    }
    simos_unsetenv(name);
    let mut v: Vec<*const c_char> = vec![];
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        v.push(*p);
        p = p.add(1);
    }
    let mut b = std::ffi::CStr::from_ptr(name).to_bytes().to_vec();
    b.push(b'=');
    b.extend_from_slice(std::ffi::CStr::from_ptr(val).to_bytes_with_nul());
    v.push(Box::leak(b.into_boxed_slice()).as_ptr() as *const c_char);
    v.push(std::ptr::null());
    let b: &'static mut [*const c_char] = Box::leak(v.into_boxed_slice());
    environ = b.as_ptr();
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_readv(fd: c_int, v: *const iovec, n: c_int) -> isize {
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return simos_read(fd, x.iov_base as *mut _, x.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn simos_gethostname(b: *mut c_char, n: usize) -> c_int {
    let h = b"host\0";
    for i in 0..n.min(h.len()) {
        *b.add(i) = h[i] as c_char;
    }
    0
}
zero! { simos_pthread_sigmask simos_sigprocmask simos_chown simos_fchown simos_lchown simos_alarm simos_sigfillset }
