//! C10.
#[path = "../calls/c10.rs"]
mod c10;

/// Pass an object through a channel.
pub fn pass<T: crossmist::Object>(o: &T) -> Result<T, String> {
    let (mut tx, mut rx) = crossmist::channel::<T>().map_err(|e| e.to_string())?;
    tx.send(o).map_err(|e| e.to_string())?;
    rx.recv().map_err(|e| e.to_string())?.ok_or("object lost".into())
}

fn main() {
    mc::sys::child_init();
    crossmist::init();
    mc::run::main(|prop, tier| match prop {
        "C10" => c10::scenarios(tier),
        _ => panic!("unknown property"),
    });
}
