//! `#[crossmist::main]` around `#[tokio::main]`: run by C18.
use crossmist::func;

#[func(tokio(flavor = "current_thread"))]
async fn id() -> u32 {
    tokio::task::yield_now().await;
    std::process::id()
}

#[crossmist::main]
#[tokio::main(flavor = "current_thread")]
async fn main() {
    use std::io::Write;
    print!("main ");
    std::io::stdout().flush().unwrap();
    let mut ok = true;
    for _ in 0..2 {
        let c = id.spawn_tokio().await.unwrap();
        let pid = c.id() as u32;
        ok &= c.join().await.unwrap() == pid && pid != std::process::id();
    }
    ok &= id.run_tokio().await.unwrap() != std::process::id();
    print!("{}", if ok { "ok" } else { "wrong" });
}
