//! The libc entry points the simulated program calls.
use crate::*;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
type ReaddirFn = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
type OpendirFn = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
type ClosedirFn = unsafe extern "C" fn(*mut libc::DIR) -> c_int;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_READDIR: Option<ReaddirFn> = None;
static mut REAL_OPENDIR: Option<OpendirFn> = None;
static mut REAL_CLOSEDIR: Option<ClosedirFn> = None;

pub unsafe fn resolve() {
    REAL_CREATE = std::mem::transmute(next_sym(b"pthread_create\0"));
    REAL_JOIN = std::mem::transmute(next_sym(b"pthread_join\0"));
    REAL_READDIR = std::mem::transmute(next_sym(b"readdir64\0"));
    REAL_OPENDIR = std::mem::transmute(next_sym(b"opendir\0"));
    REAL_CLOSEDIR = std::mem::transmute(next_sym(b"closedir\0"));
}

// ---------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
    up: AtomicU32,
}

extern "C" {
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
}

extern "C" fn on_exit(_: *mut c_void) {
    if let Some(s) = sim() {
        unsafe { thread_exit(s) };
    }
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let st = &*(p as *const Start);
        TID.with(|t| t.set(st.tid as i32));
        __cxa_thread_atexit_impl(on_exit, std::ptr::null_mut(), &raw mut SIM as *mut c_void);
        let w = (&(*SIM).thr)[st.tid].word;
        let (f, arg) = (st.f, st.arg);
        st.up.store(1, Ordering::SeqCst);
        futex_wake(st.up.as_ptr(), 1);
        wait_turn(w);
        f(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if REAL_CREATE.is_none() {
        resolve();
    }
    let real = REAL_CREATE.unwrap();
    let s = match sim() {
        Some(s) => s,
        None => return real(th, attr, f, arg),
    };
    let tid = new_thread(s);
    let st: &'static Start = Box::leak(Box::new(Start { f, arg, tid, up: AtomicU32::new(0) }));
    let r = real(th, attr, trampoline, st as *const Start as *mut c_void);
    if r != 0 {
        s.thr[tid].block = Block::Exited;
        return r;
    }
    while st.up.load(Ordering::SeqCst) == 0 {
        futex_wait(st.up.as_ptr(), 0);
    }
    s.thr[tid].pthread = *th;
    s.thr[tid].block = Block::Run;
    s.point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if REAL_JOIN.is_none() {
        resolve();
    }
    if let Some(s) = sim() {
        s.point();
        if let Some(tid) = s.thr.iter().position(|t| t.pthread == th && t.block != Block::Exited) {
            s.block(Block::Join { tid }, NEVER);
        }
    }
    REAL_JOIN.unwrap()(th, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(s) = sim() {
        s.resched();
        return 0;
    }
    ret(sc3(libc::SYS_sched_yield, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- time

unsafe fn put(ts: *mut libc::timespec, ns: u64) {
    (*ts).tv_sec = (ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
}
unsafe fn get(ts: *const libc::timespec) -> u64 {
    ((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec.max(0) as u64)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(s) = sim() {
        s.count("clock_reads");
        s.point();
        let t = s.read_clock(id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE);
        put(ts, t);
        return 0;
    }
    ret(sc3(libc::SYS_clock_gettime, id as i64, ts as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(s) = sim() {
        let t = s.now.saturating_add(get(req));
        s.block(Block::Sleep, t);
        return 0;
    }
    ret(sc3(libc::SYS_nanosleep, req as i64, rem as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(s) = sim() {
        let t = if flags & libc::TIMER_ABSTIME != 0 { get(req) } else { s.now.saturating_add(get(req)) };
        s.block(Block::Sleep, t);
        return 0;
    }
    -sc6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int
}

// ---------------------------------------------------------------- futex, random numbers

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if let Some(s) = sim() {
        if n == libc::SYS_futex {
            return futex(s, a as usize, b as i32, c as u32, d as *const libc::timespec, f as u32);
        }
        if n == libc::SYS_gettid {
            return gettid() as c_long;
        }
        if n == libc::SYS_getrandom {
            fill(s, a as *mut u8, b as usize);
            return b;
        }
    }
    ret(sc6(n, a, b, c, d, e, f))
}

unsafe fn futex(s: &mut Sim, addr: usize, op: i32, val: u32, ts: *const libc::timespec, mask: u32) -> c_long {
    let cmd = op & 127;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            s.point();
            let cur = (*(addr as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                errno(libc::EAGAIN);
                return -1;
            }
            let o = s.conf.spurious;
            if o.hit(&mut s.rng) {
                s.count("fault.spurious_wakeup");
                if s.rng.chance(1, 2) {
                    errno(libc::EINTR);
                    return -1;
                }
                return 0;
            }
            let until = if ts.is_null() {
                NEVER
            } else if cmd == libc::FUTEX_WAIT {
                s.now.saturating_add(get(ts))
            } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                let rt = (1_600_000_000_000_000_000i64 + s.now as i64 + s.rt_offset) as u64;
                s.now.saturating_add(get(ts).saturating_sub(rt))
            } else {
                get(ts)
            };
            let m = if cmd == libc::FUTEX_WAIT { !0 } else { mask };
            if s.block(Block::Futex { addr, mask: m }, until) {
                errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let m = if cmd == libc::FUTEX_WAKE { !0 } else { mask };
            let n = s.futex_wake(addr, val as i32 as usize, m);
            s.point();
            n as c_long
        }
        _ => {
            s.finish("unsupported futex operation", 95);
        }
    }
}

unsafe fn fill(s: &mut Sim, p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = (s.rnd.next() >> 32) as u8;
    }
}

/// Thread ids appear in panic messages.
#[no_mangle]
pub unsafe extern "C" fn gettid() -> libc::pid_t {
    if sim().is_some() {
        return 1000 + me() as libc::pid_t;
    }
    ret(sc3(libc::SYS_gettid, 0, 0, 0)) as libc::pid_t
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if let Some(s) = sim() {
        fill(s, p as *mut u8, n);
        return n as ssize_t;
    }
    ret(sc3(libc::SYS_getrandom, p as i64, n as i64, flags as i64)) as ssize_t
}

// ---------------------------------------------------------------- epoll, eventfd

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if let Some(s) = sim() {
        let o = s.new_obj(Obj::Epoll(vec![]));
        return s.new_fd(o);
    }
    ret(sc3(libc::SYS_epoll_create1, flags as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: libc::c_uint, flags: c_int) -> c_int {
    if let Some(s) = sim() {
        let o = s.new_obj(Obj::Event(init as u64));
        return s.new_fd(o);
    }
    ret(sc3(libc::SYS_eventfd2, init as i64, flags as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if let Some(s) = sim() {
        if let Some(e) = s.obj_of(ep) {
            let (events, data) = if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) };
            let r = s.epoll_ctl(e, op, fd, events, data);
            s.point();
            if r != 0 {
                errno(r);
                return -1;
            }
            return 0;
        }
    }
    ret(sc6(libc::SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if let Some(s) = sim() {
        if let Some(obj) = s.obj_of(ep) {
            s.point();
            let o = s.conf.spurious;
            if o.hit(&mut s.rng) {
                s.count("fault.epoll_eintr");
                errno(libc::EINTR);
                return -1;
            }
            let until = if timeout < 0 { NEVER } else { s.now + timeout as u64 * 1_000_000 };
            loop {
                let v = s.epoll_take(obj, max as usize);
                if !v.is_empty() {
                    for (i, (e, d)) in v.iter().enumerate() {
                        *evs.add(i) = libc::epoll_event { events: *e, u64: *d };
                    }
                    return v.len() as c_int;
                }
                if timeout == 0 || s.now >= until {
                    return 0;
                }
                if s.block(Block::Epoll { obj }, until) {
                    // one last look
                    let v = s.epoll_take(obj, max as usize);
                    for (i, (e, d)) in v.iter().enumerate() {
                        *evs.add(i) = libc::epoll_event { events: *e, u64: *d };
                    }
                    return v.len() as c_int;
                }
            }
        }
    }
    ret(sc6(libc::SYS_epoll_wait, ep as i64, evs as i64, max as i64, timeout as i64, 0, 0)) as c_int
}

// ---------------------------------------------------------------- sockets

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if let Some(s) = sim() {
        let o = s.new_obj(Obj::Socket);
        return s.new_fd(o);
    }
    ret(sc3(libc::SYS_socket, d as i64, t as i64, p as i64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> c_int {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            s.objs[o].0 = Obj::Listener { backlog: VecDeque::new(), listening: false };
            return 0;
        }
    }
    ret(sc3(libc::SYS_bind, fd as i64, a as i64, l as i64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            if let Obj::Listener { listening, .. } = &mut s.objs[o].0 {
                *listening = true;
            }
            return 0;
        }
    }
    ret(sc3(libc::SYS_listen, fd as i64, n as i64, 0)) as c_int
}

unsafe fn put_addr(a: *mut libc::sockaddr, l: *mut libc::socklen_t, port: u16) {
    if a.is_null() || l.is_null() {
        return;
    }
    let mut x: libc::sockaddr_in6 = std::mem::zeroed();
    x.sin6_family = libc::AF_INET6 as u16;
    x.sin6_port = port.to_be();
    x.sin6_addr.s6_addr[15] = 1;
    let n = (*l as usize).min(std::mem::size_of_val(&x));
    std::ptr::copy_nonoverlapping(&x as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of_val(&x) as u32;
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t, flags: c_int) -> c_int {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            s.point();
            let empty = match &s.objs[o].0 {
                Obj::Listener { backlog, .. } => backlog.is_empty(),
                _ => true,
            };
            if empty {
                errno(libc::EAGAIN);
                return -1;
            }
            let od = s.conf.acceptfail;
            if od.hit(&mut s.rng) {
                let e = *s.rng.pick(&[libc::EMFILE, libc::ENFILE, libc::ECONNABORTED, libc::ENOMEM, libc::ENOBUFS, libc::EINTR]);
                s.count("fault.accept_error");
                errno(e);
                return -1;
            }
            let c = match &mut s.objs[o].0 {
                Obj::Listener { backlog, .. } => backlog.pop_front().unwrap(),
                _ => unreachable!(),
            };
            let obj = s.new_obj(Obj::Conn(c));
            let nfd = s.new_fd(obj);
            let cl = s.conns[c].client;
            s.log(&format!("A {}", cl));
            put_addr(a, l, 40000 + c as u16);
            return nfd;
        }
    }
    ret(sc6(libc::SYS_accept4, fd as i64, a as i64, l as i64, flags as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    if let Some(s) = sim() {
        if s.obj_of(fd).is_some() {
            put_addr(a, l, 8082);
            return 0;
        }
    }
    ret(sc3(libc::SYS_getsockname, fd as i64, a as i64, l as i64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    if let Some(s) = sim() {
        if let Some(c) = s.conn_of(fd) {
            put_addr(a, l, 40000 + c as u16);
            return 0;
        }
    }
    ret(sc3(libc::SYS_getpeername, fd as i64, a as i64, l as i64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, a: c_int, b: c_int, v: *const c_void, l: libc::socklen_t) -> c_int {
    if let Some(s) = sim() {
        if s.obj_of(fd).is_some() {
            return 0;
        }
    }
    ret(sc6(libc::SYS_setsockopt, fd as i64, a as i64, b as i64, v as i64, l as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, a: c_int, b: c_int, v: *mut c_void, l: *mut libc::socklen_t) -> c_int {
    if let Some(s) = sim() {
        if s.obj_of(fd).is_some() {
            let mut e = 0;
            if b == libc::SO_ERROR {
                if let Some(c) = s.conn_of(fd) {
                    e = s.conns[c].err;
                    s.conns[c].err = 0;
                }
            }
            if !l.is_null() && *l >= 4 {
                *(v as *mut i32) = e;
                *l = 4;
            }
            return 0;
        }
    }
    ret(sc6(libc::SYS_getsockopt, fd as i64, a as i64, b as i64, v as i64, l as i64, 0)) as c_int
}

unsafe fn sock_read(s: &mut Sim, c: usize, bufs: &[(*mut u8, usize)]) -> ssize_t {
    s.point();
    let k = &mut s.conns[c];
    if k.rbuf.is_empty() {
        if k.dead {
            if k.err != 0 {
                errno(k.err);
                k.err = 0;
                return -1;
            }
            return 0;
        }
        if k.fin {
            return 0;
        }
        errno(libc::EAGAIN);
        return -1;
    }
    let mut n = 0;
    for &(p, len) in bufs {
        let m = len.min(k.rbuf.len());
        for i in 0..m {
            *p.add(i) = k.rbuf.pop_front().unwrap();
        }
        n += m;
        if m < len {
            break;
        }
    }
    s.count_n("bytes_to_server", n as u64);
    n as ssize_t
}

unsafe fn sock_write(s: &mut Sim, c: usize, bufs: &[(*const u8, usize)]) -> ssize_t {
    s.point();
    let cap = s.conf.sndcap;
    let k = &mut s.conns[c];
    if k.dead {
        let e = if k.err != 0 { k.err } else { libc::EPIPE };
        k.err = 0;
        errno(e);
        return -1;
    }
    if k.srv_fin {
        errno(libc::EPIPE);
        return -1;
    }
    let mut n = 0;
    let total: usize = bufs.iter().map(|b| b.1).sum();
    for &(p, len) in bufs {
        let m = len.min(cap.saturating_sub(k.out.len()));
        k.out.extend(std::slice::from_raw_parts(p, m));
        n += m;
        if m < len {
            break;
        }
    }
    if n < total {
        k.blocked_w = true;
        s.count("fault.back_pressure");
    }
    if n > 0 {
        let cl = s.conns[c].client;
        s.log(&format!("Y {} {}", cl, n));
    }
    s.pump_soon(c);
    if n == 0 && total > 0 {
        errno(libc::EAGAIN);
        return -1;
    }
    s.count_n("bytes_from_server", n as u64);
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if let Some(s) = sim() {
        if let Some(c) = s.conn_of(fd) {
            return sock_read(s, c, &[(p as *mut u8, n)]);
        }
    }
    ret(sc6(libc::SYS_recvfrom, fd as i64, p as i64, n as i64, flags as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if let Some(s) = sim() {
        if let Some(c) = s.conn_of(fd) {
            return sock_write(s, c, &[(p as *const u8, n)]);
        }
    }
    ret(sc6(libc::SYS_sendto, fd as i64, p as i64, n as i64, flags as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if let Some(s) = sim() {
        if let Some(c) = s.conn_of(fd) {
            s.point();
            if s.conns[c].dead {
                errno(libc::ENOTCONN);
                return -1;
            }
            if how != libc::SHUT_RD {
                s.conns[c].srv_fin = true;
                s.pump_soon(c);
                let cl = s.conns[c].client;
                s.log(&format!("W {}", cl));
            }
            return 0;
        }
    }
    ret(sc3(libc::SYS_shutdown, fd as i64, how as i64, 0)) as c_int
}

// ---------------------------------------------------------------- files and descriptors

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(s) = sim() {
        if s.obj_of(fd).is_some() {
            s.close_fd(fd);
            sc3(libc::SYS_close, fd as i64, 0, 0);
            s.point();
            return 0;
        }
        if fd >= 0 && (fd as usize) < s.files.len() {
            s.files[fd as usize] = None;
        }
    }
    ret(sc3(libc::SYS_close, fd as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            return s.new_fd(o);
        }
    }
    ret(sc3(libc::SYS_dup, fd as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            return match cmd {
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => s.new_fd(o),
                libc::F_GETFL => libc::O_RDWR | libc::O_NONBLOCK,
                libc::F_GETFD => libc::FD_CLOEXEC,
                _ => 0,
            };
        }
    }
    ret(sc3(libc::SYS_fcntl, fd as i64, cmd as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: c_long) -> c_int {
    if let Some(s) = sim() {
        if s.obj_of(fd).is_some() {
            return 0;
        }
    }
    ret(sc3(libc::SYS_ioctl, fd as i64, req as i64, arg)) as c_int
}

unsafe fn under_prefix(s: &Sim, path: *const c_char) -> Option<Vec<u8>> {
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    if s.conf.prefix.is_empty() || !p.starts_with(&s.conf.prefix) {
        return None;
    }
    let name = p.rsplit(|c| *c == b'/').next().unwrap();
    Some(name.to_vec())
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(s) = sim() {
        if let Some(name) = under_prefix(s, path) {
            s.point();
            if let Some((e, n)) = s.conf.openfail.clone() {
                if n == name {
                    s.count("fault.open_error");
                    errno(e);
                    return -1;
                }
            }
            let fd = ret(sc6(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int;
            if fd >= 0 {
                while s.files.len() <= fd as usize {
                    s.files.push(None);
                }
                s.files[fd as usize] = Some(FileSt { name, pos: 0, intr: false });
            }
            return fd;
        }
    }
    ret(sc6(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}

unsafe fn file_read(s: &mut Sim, fd: c_int, p: *mut c_void, n: usize) -> ssize_t {
    s.point();
    let mut n = n;
    let f = fd as usize;
    let (pos, name) = {
        let st = s.files[f].as_ref().unwrap();
        (st.pos, st.name.clone())
    };
    let o = s.conf.reintr;
    if !s.files[f].as_ref().unwrap().intr && o.hit(&mut s.rng) {
        s.files[f].as_mut().unwrap().intr = true;
        s.count("fault.read_eintr");
        errno(libc::EINTR);
        return -1;
    }
    s.files[f].as_mut().unwrap().intr = false;
    if let Some((at, who)) = s.conf.eio.clone() {
        if who == name && !(s.conf.eio_once && s.eio_done) {
            if pos >= at {
                s.eio_done = true;
                s.count("fault.read_eio");
                errno(libc::EIO);
                return -1;
            }
            n = n.min((at - pos) as usize);
        }
    }
    let o = s.conf.rshort;
    if n > 1 && o.hit(&mut s.rng) {
        n = 1 + s.rng.loguniform(n as u64 - 1) as usize;
        s.count("fault.short_read");
    }
    let r = ret(sc3(libc::SYS_read, fd as i64, p as i64, n as i64)) as ssize_t;
    if r > 0 {
        s.files[f].as_mut().unwrap().pos += r as u64;
        s.count_n("bytes_from_disk", r as u64);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            if let Some(c) = s.conn_of(fd) {
                return sock_read(s, c, &[(p as *mut u8, n)]);
            }
            s.point();
            if let Obj::Event(v) = &mut s.objs[o].0 {
                if *v == 0 {
                    errno(libc::EAGAIN);
                    return -1;
                }
                *(p as *mut u64) = *v;
                *v = 0;
                return 8;
            }
            errno(libc::EINVAL);
            return -1;
        }
        if fd >= 0 && s.files.get(fd as usize).map_or(false, |f| f.is_some()) {
            return file_read(s, fd, p, n);
        }
    }
    ret(sc3(libc::SYS_read, fd as i64, p as i64, n as i64)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if let Some(s) = sim() {
        if let Some(c) = s.conn_of(fd) {
            let b: Vec<(*mut u8, usize)> = (0..n as usize).map(|i| ((*v.add(i)).iov_base as *mut u8, (*v.add(i)).iov_len)).collect();
            return sock_read(s, c, &b);
        }
    }
    ret(sc3(libc::SYS_readv, fd as i64, v as i64, n as i64)) as ssize_t
}

unsafe fn out_write(s: &mut Sim, p: *const u8, n: usize) -> ssize_t {
    s.point();
    let mut n = n;
    let o = s.conf.oeintr;
    if !s.out_intr && o.hit(&mut s.rng) {
        s.out_intr = true;
        s.count("fault.write_eintr");
        errno(libc::EINTR);
        return -1;
    }
    s.out_intr = false;
    if let Some((at, e)) = s.conf.ofail {
        if s.out_bytes >= at {
            s.count("fault.write_error");
            if !s.server {
                s.log("OFAIL");
            }
            errno(e);
            return -1;
        }
        n = n.min((at - s.out_bytes) as usize);
    }
    let o = s.conf.oshort;
    if n > 1 && o.hit(&mut s.rng) {
        n = 1 + s.rng.loguniform(n as u64 - 1) as usize;
        s.count("fault.short_write");
    }
    let b = std::slice::from_raw_parts(p, n);
    s.log_hex("O", b);
    s.out_bytes += n as u64;
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if let Some(s) = sim() {
        if let Some(o) = s.obj_of(fd) {
            if let Some(c) = s.conn_of(fd) {
                return sock_write(s, c, &[(p as *const u8, n)]);
            }
            s.point();
            if let Obj::Event(v) = &mut s.objs[o].0 {
                *v += *(p as *const u64);
                s.notify(o, EIN | EOUT);
                return 8;
            }
            errno(libc::EINVAL);
            return -1;
        }
        if fd == 1 {
            return out_write(s, p as *const u8, n);
        }
        if fd == 2 {
            let b = std::slice::from_raw_parts(p as *const u8, n);
            s.log_hex("P", b);
            return n as ssize_t;
        }
    }
    ret(sc3(libc::SYS_write, fd as i64, p as i64, n as i64)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if let Some(s) = sim() {
        if let Some(c) = s.conn_of(fd) {
            let b: Vec<(*const u8, usize)> = (0..n as usize).map(|i| ((*v.add(i)).iov_base as *const u8, (*v.add(i)).iov_len)).collect();
            return sock_write(s, c, &b);
        }
        if (fd == 1 || fd == 2) && n > 0 {
            // the first non-empty part
            for i in 0..n as usize {
                let x = &*v.add(i);
                if x.iov_len > 0 {
                    return write(fd, x.iov_base, x.iov_len);
                }
            }
            return 0;
        }
    }
    ret(sc3(libc::SYS_writev, fd as i64, v as i64, n as i64)) as ssize_t
}

// ---------------------------------------------------------------- directories

struct DirSt {
    dir: *mut libc::DIR,
    ents: Vec<libc::dirent64>,
    at: usize,
}
static mut DIRS: Vec<DirSt> = Vec::new();

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if REAL_OPENDIR.is_none() {
        resolve();
    }
    let d = REAL_OPENDIR.unwrap()(path);
    if let Some(s) = sim() {
        if s.conf.shuffle && !d.is_null() && under_prefix(s, path).is_some() {
            s.point();
            let mut ents = vec![];
            loop {
                let e = REAL_READDIR.unwrap()(d);
                if e.is_null() {
                    break;
                }
                let mut x: libc::dirent64 = std::mem::zeroed();
                let n = ((*e).d_reclen as usize).min(std::mem::size_of_val(&x));
                std::ptr::copy_nonoverlapping(e as *const u8, &mut x as *mut _ as *mut u8, n);
                ents.push(x);
            }
            let key = |e: &libc::dirent64| std::ffi::CStr::from_ptr(e.d_name.as_ptr()).to_bytes().to_vec();
            ents.sort_by_key(key);
            for i in (1..ents.len()).rev() {
                let j = s.rng.below(i + 1);
                ents.swap(i, j);
            }
            s.count("fault.directory_order");
            DIRS.push(DirSt { dir: d, ents, at: 0 });
        }
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if REAL_READDIR.is_none() {
        resolve();
    }
    if sim().is_some() {
        if let Some(st) = DIRS.iter_mut().find(|x| x.dir == d) {
            if st.at >= st.ents.len() {
                return std::ptr::null_mut();
            }
            st.at += 1;
            return &mut st.ents[st.at - 1];
        }
    }
    REAL_READDIR.unwrap()(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if REAL_CLOSEDIR.is_none() {
        resolve();
    }
    if sim().is_some() {
        DIRS.retain(|x| x.dir != d);
    }
    REAL_CLOSEDIR.unwrap()(d)
}

// ---------------------------------------------------------------- the end

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if let Some(s) = sim() {
        s.end("abort");
    }
    exit_group(134)
}

// ---------------------------------------------------------------- memory

/// This library's own allocations are not the program's.
pub struct Own;

unsafe impl std::alloc::GlobalAlloc for Own {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        __libc_memalign(l.align().max(16), l.size()) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, _: std::alloc::Layout) {
        __libc_free(p as *mut c_void)
    }
}

#[global_allocator]
static OWN: Own = Own;

extern "C" {
    fn __libc_malloc(n: size_t) -> *mut c_void;
    fn __libc_calloc(n: size_t, m: size_t) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
    fn __libc_memalign(a: size_t, n: size_t) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
}

/// Allocations until the first which fails (0: off), and how many fail from there.
pub static ALLOC_LEFT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub static ALLOC_FAILS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static ALLOC_FAILED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

unsafe fn refused() -> bool {
    if ALLOC_LEFT.load(Ordering::Relaxed) <= 0 {
        return false;
    }
    // never below one: stays on the failing allocation until they have all failed
    if ALLOC_LEFT.load(Ordering::Relaxed) > 1 {
        ALLOC_LEFT.fetch_sub(1, Ordering::Relaxed);
        return false;
    }
    if ALLOC_FAILS.load(Ordering::Relaxed) == 0 {
        ALLOC_LEFT.store(0, Ordering::Relaxed);
        return false;
    }
    ALLOC_FAILS.fetch_sub(1, Ordering::Relaxed);
    ALLOC_FAILED.fetch_add(1, Ordering::Relaxed);
    errno(libc::ENOMEM);
    true
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
    if refused() {
        return std::ptr::null_mut();
    }
    __libc_malloc(n)
}

#[no_mangle]
pub unsafe extern "C" fn calloc(n: size_t, m: size_t) -> *mut c_void {
    if refused() {
        return std::ptr::null_mut();
    }
    __libc_calloc(n, m)
}

#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: size_t) -> *mut c_void {
    if refused() {
        return std::ptr::null_mut();
    }
    __libc_realloc(p, n)
}

#[no_mangle]
pub unsafe extern "C" fn posix_memalign(p: *mut *mut c_void, a: size_t, n: size_t) -> c_int {
    if refused() {
        return libc::ENOMEM;
    }
    let q = __libc_memalign(a, n);
    if q.is_null() {
        return libc::ENOMEM;
    }
    *p = q;
    0
}

#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: size_t, n: size_t) -> *mut c_void {
    if refused() {
        return std::ptr::null_mut();
    }
    __libc_memalign(a, n)
}
