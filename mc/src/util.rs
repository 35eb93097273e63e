//! Small helpers: descriptor accounting, minimal JSON.
use std::collections::BTreeMap;

/// Open descriptors of this process (number -> device:inode:type).
pub fn open_fds() -> BTreeMap<i32, (u64, u64, u32)> {
    let mut m = BTreeMap::new();
    unsafe {
        let dir = libc::open(c"/proc/self/fd".as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC);
        assert!(dir >= 0);
        let mut buf = [0u8; 8192];
        loop {
            let n = crate::sys::raw(libc::SYS_getdents64, [dir as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0]);
            if n <= 0 {
                break;
            }
            let mut p = 0;
            while p < n as usize {
                let len = u16::from_ne_bytes([buf[p + 16], buf[p + 17]]) as usize;
                let name = &buf[p + 19..p + len];
                let mut fd = 0i32;
                let mut ok = name[0] != b'.';
                for &b in name.iter().take_while(|b| **b != 0) {
                    if b.is_ascii_digit() {
                        fd = fd * 10 + (b - b'0') as i32;
                    } else {
                        ok = false;
                    }
                }
                if ok && fd != dir {
                    let mut st: libc::stat = std::mem::zeroed();
                    if libc::fstat(fd, &mut st) == 0 {
                        m.insert(fd, (st.st_dev, st.st_ino, st.st_mode));
                    }
                }
                p += len;
            }
        }
        crate::sys::raw(libc::SYS_close, [dir as usize, 0, 0, 0, 0, 0]);
    }
    m
}

pub fn fd_flags(fd: i32) -> i32 {
    crate::sys::raw(libc::SYS_fcntl, [fd as usize, libc::F_GETFD as usize, 0, 0, 0, 0]) as i32
}

pub fn ino(fd: i32) -> (u64, u64) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            return (0, 0);
        }
        (st.st_dev, st.st_ino)
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A fresh anonymous file with the given contents.
pub fn memfd(content: &[u8]) -> std::fs::File {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(c"mc".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd_create: {}", std::io::Error::last_os_error());
        let mut f = std::fs::File::from_raw_fd(fd);
        f.write_all(content).unwrap();
        f
    }
}

/// Pseudo-random but fixed contents distinguishing object `id`.
pub fn pattern(id: u32, len: usize) -> Vec<u8> {
    let mut x = id.wrapping_mul(0x9E37_79B9).wrapping_add(len as u32) | 1;
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        v.push(x as u8);
    }
    v
}
