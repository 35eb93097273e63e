//! A pool of open files that can be told apart: each pool entry is a distinct open file description
//! (own offset, own access mode).
use crate::util::{ino, memfd};
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::sync::OnceLock;

pub const POOL: usize = 601;

fn pool() -> &'static Vec<File> {
    static P: OnceLock<Vec<File>> = OnceLock::new();
    P.get_or_init(|| {
        crate::sys::uncontrolled(|| {
            let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            unsafe {
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
                r.rlim_cur = r.rlim_max.min(20000);
                libc::setrlimit(libc::RLIMIT_NOFILE, &r);
            }
            (0..POOL)
                .map(|i| {
                    // Entries come in pairs sharing an inode but not the open file
                    let base = memfd(&[i as u8; 16]);
                    let path = std::ffi::CString::new(format!("/proc/self/fd/{}", base.as_raw_fd())).unwrap();
                    let mode = [libc::O_RDWR, libc::O_RDONLY, libc::O_WRONLY][i % 3];
                    let fd = unsafe { libc::open(path.as_ptr(), mode | libc::O_CLOEXEC) };
                    assert!(fd >= 0, "open: {}", std::io::Error::last_os_error());
                    // Keep the pool out of the way of low descriptor numbers
                    let high = crate::sys::raw(libc::SYS_fcntl, [fd as usize, libc::F_DUPFD_CLOEXEC as usize, 3000, 0, 0, 0]);
                    assert!(high >= 0);
                    crate::sys::raw(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]);
                    unsafe { File::from_raw_fd(high as i32) }
                })
                .collect()
        })
    })
}

/// A new descriptor for the open file `i`.
pub fn dup(i: usize) -> File {
    let fd = crate::sys::raw(
        libc::SYS_fcntl,
        [pool()[i].as_raw_fd() as usize, libc::F_DUPFD_CLOEXEC as usize, 0, 0, 0, 0],
    );
    assert!(fd >= 0, "dup: {fd}");
    unsafe { File::from_raw_fd(fd as i32) }
}

/// Does `fd` refer to the very open file `i`?
pub fn same(fd: RawFd, i: usize) -> Result<(), String> {
    let p = pool()[i].as_raw_fd();
    if ino(fd) == (0, 0) {
        return Err("not an open descriptor".into());
    }
    if ino(fd) != ino(p) {
        return Err("refers to another file".into());
    }
    if fd == p {
        return Err("not a new descriptor".into());
    }
    unsafe {
        if libc::fcntl(fd, libc::F_GETFL) != libc::fcntl(p, libc::F_GETFL) {
            return Err("other access mode".into());
        }
        // Shared offset
        let off = libc::lseek(p, 0, libc::SEEK_CUR);
        if libc::lseek(fd, off + 3, libc::SEEK_SET) != off + 3 || libc::lseek(p, 0, libc::SEEK_CUR) != off + 3 {
            return Err("offset not shared: not the same open file".into());
        }
        libc::lseek(p, 0, libc::SEEK_SET);
    }
    Ok(())
}

/// Create the pool now, so that it does not disturb descriptor accounting later.
pub fn warm() {
    pool();
}
