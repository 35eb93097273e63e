//! A program whose main is wrapped by `#[crossmist::main]`: run by C18. The way main ends depends on
//! the first argument.
use crossmist::func;

#[func]
fn id() -> u32 {
    std::process::id()
}

#[func]
fn nested() -> (u32, u32, u32) {
    let c = id.spawn().unwrap();
    let pid = c.id() as u32;
    (std::process::id(), pid, c.join().unwrap())
}

/// What becomes of the program before it spawns: `surroundings FILE DIR ENV STDIN SCRATCH`.
fn surroundings() {
    use std::path::Path;
    let a: Vec<String> = std::env::args_os().skip(1).map(|a| a.into_string().unwrap()).collect();
    if a.first().map(|s| &s[..]) != Some("surroundings") {
        return;
    }
    let scratch = Path::new(&a[5]);
    let file = scratch.join("mains");
    match &a[1][..] {
        "renamed" => std::fs::rename(&file, scratch.join("other")).unwrap(),
        "removed" => std::fs::remove_file(&file).unwrap(),
        "replaced" => {
            std::fs::remove_file(&file).unwrap();
            std::fs::copy("/bin/true", &file).unwrap();
        }
        _ => {}
    }
    match &a[2][..] {
        "changed" => std::env::set_current_dir("/").unwrap(),
        "removed" => {
            let dir = scratch.join("dir");
            std::fs::create_dir(&dir).unwrap();
            std::env::set_current_dir(&dir).unwrap();
            std::fs::remove_dir(&dir).unwrap();
        }
        _ => {}
    }
    if a[3] == "cleared" {
        for (k, _) in std::env::vars_os() {
            #[allow(unused_unsafe)]
            unsafe {
                std::env::remove_var(k)
            };
        }
    }
    if a[4] == "closed" {
        unsafe { libc::close(0) };
    }
}

#[crossmist::main]
fn main() -> std::process::ExitCode {
    use std::io::Write;
    print!("main ");
    std::io::stdout().flush().unwrap();
    crossmist::init();
    surroundings();
    let mut ok = true;
    for _ in 0..2 {
        let c = id.spawn().unwrap();
        let pid = c.id() as u32;
        ok &= c.join().unwrap() == pid && pid != std::process::id();
        crossmist::init();
    }
    let c = nested.spawn().unwrap();
    let pid = c.id() as u32;
    let (a, b, c) = c.join().unwrap();
    ok &= a == pid && b == c && a != b && b != std::process::id();
    print!("{}", if ok { "ok" } else { "wrong" });
    match std::env::args_os().nth(1).as_ref().and_then(|a| a.to_str()) {
        Some("code") => std::process::ExitCode::from(5),
        _ => std::process::ExitCode::SUCCESS,
    }
}
