//! Processes: C12, C13, C14, C16, C18, C22.
#[path = "../proc/c12.rs"]
mod c12;
#[path = "../proc/c13.rs"]
mod c13;
#[path = "../proc/c14.rs"]
mod c14;
#[path = "../proc/c16.rs"]
mod c16;
#[path = "../proc/c18.rs"]
mod c18;
#[path = "../proc/c22.rs"]
mod c22;
#[path = "../proc/lots.rs"]
mod lots;

use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::FileExt;

/// A file that children inherit (it is not close-on-exec) and append to.
pub struct Log(File);
impl Log {
    pub fn new() -> Log {
        unsafe {
            let m = mc::util::memfd(b"");
            let path = std::ffi::CString::new(format!("/proc/self/fd/{}", m.as_raw_fd())).unwrap();
            let fd = libc::open(path.as_ptr(), libc::O_RDWR | libc::O_APPEND);
            assert!(fd >= 0);
            Log(File::from_raw_fd(fd))
        }
    }
    pub fn fd(&self) -> i32 {
        self.0.as_raw_fd()
    }
    pub fn peek(&self) -> Vec<u8> {
        let mut b = vec![0; self.0.metadata().unwrap().len() as usize];
        self.0.read_exact_at(&mut b, 0).unwrap();
        b
    }
    pub fn take(&self) -> Vec<u8> {
        let b = self.peek();
        self.0.set_len(0).unwrap();
        b
    }
}

/// What children learn about dying (see mc::sys::child_init).
pub fn quiet_env(die: Option<&str>) {
    match die {
        Some(d) => std::env::set_var("MC_DIE", d),
        None => std::env::remove_var("MC_DIE"),
    }
}

/// The descriptors that are compared (the pool of files is above).
pub fn low_fds() -> Vec<i32> {
    mc::util::open_fds().into_iter().map(|(f, _)| f).filter(|f| *f < 3000).collect()
}

pub fn tokio<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}

/// Let the executors open what they keep open.
pub fn warm() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        mc::files::warm();
        let nap = std::time::Duration::from_millis(1);
        async_io::block_on(async_io::Timer::after(nap));
        tokio(async { tokio::time::sleep(nap).await });
    });
}

/// Run `f`, and require that no child and no descriptor is left.
pub fn clean<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    warm();
    let before = low_fds();
    let r = f()?;
    mc::ensure!(!mc::sys::has_children(), "a child was not reaped");
    let after = low_fds();
    let leaked: Vec<_> = after.iter().filter(|f| !before.contains(f)).map(|f| (f, std::fs::read_link(format!("/proc/self/fd/{f}")))).collect();
    mc::ensure!(leaked.is_empty(), "descriptors leaked: {leaked:?}");
    mc::ensure!(before.len() == after.len(), "descriptors closed: {:?}", before.iter().filter(|f| !after.contains(f)).collect::<Vec<_>>());
    Ok(r)
}

fn main() {
    mc::sys::child_init();
    if let Ok(spec) = std::env::var("MC_INIT") {
        c18::init_test(&spec);
    }
    crossmist::init();
    // A child that gets here executes what only the parent should
    if let (Ok(log), true) = (std::env::var("MC_MAIN"), std::env::args().next().as_deref() == Some("_crossmist_")) {
        unsafe { libc::write(log.parse().unwrap(), c"main\n".as_ptr() as *const _, 5) };
        std::process::exit(0);
    }
    mc::run::main(|prop, tier| match prop {
        "C22" => c22::scenarios(tier),
        "C18" => c18::scenarios(tier),
        "C16" => c16::scenarios(tier),
        "C14" => c14::scenarios(tier),
        "C13" => c13::scenarios(tier),
        "C12" => c12::scenarios(tier),
        _ => panic!("unknown property"),
    });
}
