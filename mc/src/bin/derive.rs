//! C08: derived types.
#![cfg_attr(feature = "nightly", feature(never_type))]
#![allow(dead_code, unused_imports, unused_macros, non_local_definitions)]
#[path = "../obj/c07.rs"]
mod c07;
#[path = "../obj/c08.rs"]
mod c08;
#[path = "../obj/shapes.rs"]
mod generated;
#[path = "../obj/uni.rs"]
mod uni;

/// What the generated code uses.
mod shapes {
    use crate::uni::U;
    /// A small domain for each field: the first value, one from the middle, the last.
    fn domain<T: U>() -> Vec<T> {
        let v = T::values();
        let (mid, last) = (v.len() / 2, v.len().max(1) - 1);
        v.into_iter().enumerate().filter(|(i, _)| *i == 0 || *i == mid || *i == last).map(|x| x.1).collect()
    }
    pub fn n<T: U>() -> usize {
        domain::<T>().len()
    }
    pub fn pick<T: U>(i: usize) -> T {
        domain().into_iter().nth(i).unwrap()
    }
    /// All combinations for up to three fields; with more, each value of each field.
    pub fn combos(n: &[usize]) -> Vec<Vec<usize>> {
        if n.len() > 3 {
            return (0..*n.iter().max().unwrap()).map(|i| n.iter().enumerate().map(|(j, m)| (i + j) % m).collect()).collect();
        }
        let mut all = vec![vec![]];
        for &m in n {
            all = all.into_iter().flat_map(|c| (0..m).map(move |i| [c.clone(), vec![i]].concat())).collect();
        }
        all
    }
    pub type Sample1 = crate::generated::S3;
    pub type Sample2 = crate::generated::S100;
}

fn main() {
    crossmist::init();
    mc::run::main(|_, _| {
        mc::files::warm();
        let mut all = Vec::new();
        generated::shapes(&mut all);
        c08::scenarios(&mut all);
        c07::distinct(all)
    });
}
