//! Standard output and error as a seam: what is printed while a closure runs is collected.
use std::cell::Cell;
use std::io::Write;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize;
}
thread_local! { static FD: Cell<i32> = const { Cell::new(-1) }; }

/// not for use while other threads print
pub fn tap<R>(f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    let _ = std::io::stdout().flush();
    unsafe {
        if FD.get() < 0 { FD.set(memfd_create(c"tap".as_ptr(), 1)); }
        let fd = FD.get();
        assert!(fd >= 0, "no memory file");
        let (o, e) = (dup(1), dup(2));
        assert!(o >= 0 && e >= 0);
        ftruncate(fd, 0);
        lseek(fd, 0, 0);
        dup2(fd, 1);
        dup2(fd, 2);
        let r = f();
        let _ = std::io::stdout().flush();
        dup2(o, 1);
        dup2(e, 2);
        close(o);
        close(e);
        let n = lseek(fd, 0, 1).max(0) as usize;
        let mut b = vec![0u8; n];
        let mut at = 0;
        while at < n { let k = pread(fd, b.as_mut_ptr().add(at), n - at, at as i64); if k <= 0 { break; } at += k as usize; }
        b.truncate(at);
        (r, b)
    }
}
