//! Channels: C01, C02, C03, C04, C05, C15, C19, C20.
#[path = "../chan/c01.rs"]
mod c01;
#[path = "../chan/c02.rs"]
mod c02;
#[path = "../chan/c03.rs"]
mod c03;
#[path = "../chan/c04.rs"]
mod c04;
#[path = "../chan/c05.rs"]
mod c05;
#[path = "../chan/c15.rs"]
mod c15;
#[path = "../chan/c19.rs"]
mod c19;
#[path = "../chan/c20.rs"]
mod c20;

fn main() {
    mc::sys::child_init();
    crossmist::init();
    mc::run::main(|prop, tier| match prop {
        "C01" => c01::scenarios(tier),
        "C02" => c02::scenarios(tier),
        "C03" => c03::scenarios(tier),
        "C04" => c04::scenarios(tier),
        "C05" => c05::scenarios(tier),
        "C15" => c15::scenarios(tier),
        "C19" => c19::scenarios(tier),
        "C20" => c20::scenarios(tier),
        _ => panic!("unknown property"),
    });
}
