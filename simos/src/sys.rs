//! Raw system calls: this library defines the libc names itself, so it must not call them.
use std::arch::asm;

pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn errno(e: i32) {
    *libc::__errno_location() = e;
}
/// libc convention: -1 and errno
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(w: *const u32, val: u32) {
    sc6(libc::SYS_futex, w as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(w: *const u32, n: i64) {
    sc6(libc::SYS_futex, w as i64, 129, n, 0, 0, 0);
}
pub unsafe fn exit_group(code: i64) -> ! {
    sc3(libc::SYS_exit_group, code, 0, 0);
    loop {}
}
pub unsafe fn read_all(path: &[u8]) -> Option<Vec<u8>> {
    let mut p = path.to_vec();
    p.push(0);
    let fd = sc3(libc::SYS_open, p.as_ptr() as i64, 0, 0);
    if fd < 0 {
        return None;
    }
    let mut v = vec![];
    let mut buf = vec![0u8; 65536];
    loop {
        let n = sc3(libc::SYS_read, fd, buf.as_mut_ptr() as i64, buf.len() as i64);
        if n <= 0 {
            break;
        }
        v.extend_from_slice(&buf[..n as usize]);
    }
    sc3(libc::SYS_close, fd, 0, 0);
    Some(v)
}
pub fn next_sym(name: &'static [u8]) -> *mut libc::c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) }
}
