//! Many functions that could be confused with each other. Generated once; the names are chosen to clash.
#![allow(non_snake_case, non_upper_case_globals)]
use crate::tokio;
use crossmist::func;

macro_rules! run {
    ($f:path, $h:expr, $x:expr) => {{
        use $f as the_function;
        match $h {
            0 => the_function.run($x),
            1 => tokio(async { the_function.run_tokio($x).await }),
            2 => async_io::block_on(async { the_function.run_smol($x).await }),
            3 => the_function.spawn($x)?.join(),
            4 => tokio(async { the_function.spawn_tokio($x).await?.join().await }),
            _ => async_io::block_on(async { the_function.spawn_smol($x).await?.join().await }),
        }
    }};
}

macro_rules! lots {
    ($($name:ident = $n:expr;)*) => {
        mod plain { use crossmist::func; $(#[func] pub fn $name(x: u32) -> (u32, u32) { ($n, x) })* }
        mod sync { use crossmist::func; $(#[func] pub fn $name(x: u32) -> (u32, u32) { ($n + 100, x) })* }
        mod other { pub mod sync { use crossmist::func; $(#[func] pub fn $name(x: u32) -> (u32, u32) { ($n + 200, x) })* } }
        mod toki { use crossmist::func; $(#[func(tokio(flavor = "current_thread"))] pub async fn $name(x: u32) -> (u32, u32) { ($n + 300, x) })* }
        mod smo { use crossmist::func; $(#[func(smol)] pub async fn $name(x: u32) -> (u32, u32) { ($n + 400, x) })* }
        pub const LOTS: &[&str] = &[$(stringify!($name)),*];
        pub fn call(which: usize, group: usize, how: usize, x: u32) -> std::io::Result<(u32, u32)> {
            let name = LOTS[which];
            $(if name == stringify!($name) {
                return match group {
                    0 => run!(plain::$name, how, x),
                    1 => run!(sync::$name, how, x),
                    2 => run!(other::sync::$name, how, x),
                    3 => run!(toki::$name, how, x),
                    _ => run!(smo::$name, how, x),
                };
            })*
            unreachable!()
        }
    };
}
lots! {
    f = 0;
    g = 1;
    run = 2;
    call = 3;
    self_ = 4;
    crossmist_ = 5;
    Type = 6;
    a_b = 7;
    ab = 8;
    a__b = 9;
    _ab = 10;
    invoke = 11;
}

/// Functions of other forms.
pub fn everything(how: usize) -> std::io::Result<Result<(), String>> {
    macro_rules! go {
        ($f:ident($($a:expr),*) => $want:expr) => {{
            let got = match how {
                0 => $f.run($($a),*),
                1 => tokio(async { $f.run_tokio($($a),*).await }),
                2 => async_io::block_on(async { $f.run_smol($($a),*).await }),
                3 => $f.spawn($($a),*)?.join(),
                4 => tokio(async { $f.spawn_tokio($($a),*).await?.join().await }),
                _ => async_io::block_on(async { $f.spawn_smol($($a),*).await?.join().await }),
            }?;
            if got != $want {
                return Ok(Err(format!("{} returned {got:?}", stringify!($f))));
            }
        }};
    }
    #[func]
    fn inner(x: u32) -> u32 {
        x + 1
    }
    fn deeper(how: usize) -> std::io::Result<Result<(), String>> {
        macro_rules! go_inner {
            ($x:expr) => {
                match how {
                    0 => inner.run($x),
                    1 => tokio(async { inner.run_tokio($x).await }),
                    2 => async_io::block_on(async { inner.run_smol($x).await }),
                    3 => inner.spawn($x)?.join(),
                    4 => tokio(async { inner.spawn_tokio($x).await?.join().await }),
                    _ => async_io::block_on(async { inner.spawn_smol($x).await?.join().await }),
                }
            };
        }
        #[func]
        fn inner(x: u32) -> u32 {
            x + 2
        }
        let got = go_inner!(5)?;
        Ok(if got == 7 { Ok(()) } else { Err(format!("deeper inner returned {got}")) })
    }
    #[func]
    fn nothing() {}
    #[func]
    fn unit(_x: ()) -> () {}
    #[func]
    fn mutable(mut x: Vec<u8>, mut y: String) -> (Vec<u8>, String) {
        x.push(y.len() as u8);
        y.push('!');
        (x, y)
    }
    /// Documented, and with attributes
    #[func]
    #[allow(unused_variables, clippy::needless_return)]
    #[inline(never)]
    pub(crate) fn attributes(x: u8, y: u8) -> u8 {
        return y;
    }
    #[func]
    fn swapped(a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: bool, j: char, k: String, l: [u8; 3]) -> String {
        format!("{a} {b} {c} {d} {e} {f} {g} {h} {i} {j} {k} {l:?}")
    }
    #[func]
    fn same_types(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32) -> Vec<u32> {
        vec![a, b, c, d, e, f, g]
    }
    #[func]
    fn fails(x: u8) -> Result<u8, String> {
        Err(format!("{x}"))
    }
    #[func]
    fn questions(x: String) -> Option<u8> {
        let y: u8 = x.parse().ok()?;
        Some(y + 1)
    }
    #[func]
    fn named_alike(self_: u8, args_: u8, crossmist_args: u8, output_tx_: u8, this: u8) -> Vec<u8> {
        vec![self_, args_, crossmist_args, output_tx_, this]
    }
    #[func]
    fn calls_another(x: u32) -> u32 {
        #[func]
        fn twice(x: u32) -> u32 {
            2 * x
        }
        twice.run(x).unwrap() + twice.run(1).unwrap()
    }
    #[func]
    fn recursive(n: u32) -> u32 {
        if n == 0 { 1 } else { n * recursive.run(n - 1).unwrap() }
    }
    #[func]
    fn raw(r#type: u8, r#loop: u8) -> u8 {
        r#type - r#loop
    }
    #[func(tokio(flavor = "current_thread"))]
    async fn spawns_tasks(x: u32) -> u32 {
        ::tokio::spawn(async move { x + 10 }).await.unwrap()
    }
    #[func(tokio(flavor = "current_thread"))]
    async fn nothing_tokio() {}
    #[func(smol)]
    async fn nothing_smol() {}
    #[func(smol)]
    async fn string_smol(x: String) -> String {
        x + "smol"
    }
    go!(inner(5) => 6);
    if let Err(e) = deeper(how)? {
        return Ok(Err(e));
    }
    go!(nothing() => ());
    go!(unit(()) => ());
    go!(mutable(vec![1], "ab".to_string()) => (vec![1, 2], "ab!".to_string()));
    go!(attributes(1, 2) => 2);
    go!(swapped(1, 2, 3, 4, -5, -6, -7, -8, true, 'x', "k".to_string(), [7, 8, 9]) => "1 2 3 4 -5 -6 -7 -8 true x k [7, 8, 9]");
    go!(same_types(1, 2, 3, 4, 5, 6, 7) => vec![1, 2, 3, 4, 5, 6, 7]);
    go!(fails(3) => Err("3".to_string()));
    go!(questions("41".to_string()) => Some(42));
    go!(questions("x".to_string()) => None);
    go!(named_alike(1, 2, 3, 4, 5) => vec![1, 2, 3, 4, 5]);
    go!(calls_another(4) => 10);
    go!(recursive(4) => 24);
    go!(raw(5, 3) => 2);
    go!(spawns_tasks(1) => 11);
    go!(nothing_tokio() => ());
    go!(nothing_smol() => ());
    go!(string_smol("a".to_string()) => "asmol");
    Ok(Ok(()))
}
