//! Callable objects next to the plain closures they stand for, behind the traits a user sees.
use super::*;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, Delayed, FnMutObject, FnObject, FnOnceObject, StaticFn};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Read;
use std::pin::Pin;

pub type F1 = Box<dyn FnObject<(u64,), Output = u64>>;
pub type M1 = Box<dyn FnMutObject<(u64,), Output = u64>>;
pub type O1 = Box<dyn FnOnceObject<(u64,), Output = u64>>;

#[func]
fn add_one(x: u64) -> u64 {
    x + 1
}
#[func]
fn sub(x: u64, y: u64) -> u64 {
    x.wrapping_sub(y)
}
#[func]
fn fma(x: u64, y: &u64, z: &mut u64) -> u64 {
    *z = z.wrapping_mul(3) + *y;
    x + *y * *z
}
#[func]
fn compose(f: &F1, g: &F1, x: u64) -> u64 {
    f.call_object((g.call_object((x,)),))
}
#[func]
fn grow(text: &mut String, x: u64) -> u64 {
    text.push_str(&x.to_string());
    text.len() as u64
}
#[func]
fn identity<T: Object + 'static>(x: T) -> T {
    x
}
#[func]
fn swap<T: Object + 'static, U: Object + 'static>(x: T, y: U) -> (U, T) {
    (y, x)
}
fn plain(x: u64) -> u64 {
    x * 7
}
fn read(f: &File) -> u64 {
    use std::os::unix::fs::FileExt;
    let mut b = [0; 3];
    f.read_exact_at(&mut b, 1).unwrap();
    b[0] as u64 * 10000 + b[1] as u64 * 100 + b[2] as u64
}

pub fn fns(n: usize) -> Option<(F1, Box<dyn FnMut(u64) -> u64>)> {
    let (a, b) = (1000u64, 20000u64);
    let text = String::from("some text");
    let file = || mc::util::memfd(&[1, 2, 3, 4]);
    Some(match n {
        0 => (Box::new(add_one), Box::new(|x| x + 1)),
        1 => (lambda! { |x: u64| -> u64 { x * 2 } }, Box::new(|x| x * 2)),
        2 => (lambda! { move(a: u64) |x: u64| -> u64 { a.wrapping_sub(x) } }, Box::new(move |x| a.wrapping_sub(x))),
        3 => (lambda! { move(a: u64, b: u64) |x: u64| -> u64 { b / a + x } }, Box::new(move |x| b / a + x)),
        4 => (lambda! { move(&text: &String) |x: u64| -> u64 { text.len() as u64 + x } }, Box::new(move |x| 9 + x)),
        5 => (lambda! { move(&text: &String, a: u64, &b: &u64) |x: u64| -> u64 { text.len() as u64 * a + *b + 100 * x } }, {
            let n = 9;
            Box::new(move |x| n * a + 100 * x + b)
        }),
        6 => (Box::new(unsafe { StaticFn::<fn(u64) -> u64>::new(plain) }), Box::new(plain)),
        7 => (Box::new(unsafe { StaticFn::<fn(u64) -> u64>::new(|x| x ^ 0xFF) }), Box::new(|x| x ^ 0xFF)),
        8 => {
            let (f, mut m) = fns(2).unwrap();
            let (g, mut n) = fns(4).unwrap();
            (Box::new(compose.bind_ref(f).bind_ref(g)), Box::new(move |x| m(n(x))))
        }
        9 => {
            let (f, mut m) = fns(8).unwrap();
            (lambda! { move(&f: &F1) |x: u64| -> u64 { f.call_object((f.call_object((x,)) % 1000,)) } }, {
                Box::new(move |x| {
                    let y = m(x) % 1000;
                    m(y)
                })
            })
        }
        10 => (Box::new(sub.bind_value(5)), Box::new(|x| 5u64.wrapping_sub(x))),
        11 => (Box::new(unsafe { StaticFn::<fn(u64, u64) -> u64>::new(|x, y| x * 100 + y) }.bind_value(5)), Box::new(|x| 500 + x)),
        12 => {
            let map: BTreeMap<u64, String> = (0..4).map(|i| (i, "x".repeat(i as usize))).collect();
            let copy = map.clone();
            (
                lambda! { move(&map: &BTreeMap<u64, String>) |x: u64| -> u64 { map.get(&(x % 5)).map_or(77, |s| s.len() as u64) } },
                Box::new(move |x| copy.get(&(x % 5)).map_or(77, |s| s.len() as u64)),
            )
        }
        13 => {
            let f = file();
            (lambda! { move(&f: &File) |x: u64| -> u64 { read(f) + x } }, Box::new(|x| 20304 + x))
        }
        14 => {
            let list: Vec<F1> = (0..4).map(|i| fns(i).unwrap().0).collect();
            let mut models: Vec<_> = (0..4).map(|i| fns(i).unwrap().1).collect();
            (
                lambda! { move(&list: &Vec<F1>,) |x: u64,| -> u64 { list.iter().fold(x, |x, f| f.call_object((x % 100,))) } },
                Box::new(move |x| models.iter_mut().fold(x, |x, f| f(x % 100))),
            )
        }
        #[cfg(feature = "nightly")]
        16 => (Box::new(fns(9).unwrap().0), fns(9).unwrap().1),
        15 => {
            let f = unsafe { StaticFn::<fn(u64, u64, u64) -> u64>::new(|x, y, z| x * y + z) };
            (Box::new(f.bind_value(7).bind_value(9)), Box::new(|x| 63 + x))
        }
        _ => return None,
    })
}

pub fn muts(n: usize) -> Option<(M1, Box<dyn FnMut(u64) -> u64>)> {
    let (mut a, mut b) = (1000u64, 20000u64);
    let text = String::from("some text");
    Some(match n {
        0 => (lambda! { move(&mut a: &mut u64) |x: u64| -> u64 { *a += x; *a } }, {
            Box::new(move |x| {
                a += x;
                a
            })
        }),
        1 => (lambda! { move(&mut a: &mut u64, &mut b: &mut u64) |x: u64| -> u64 { std::mem::swap(a, b); *a += x; (*a * 3).wrapping_sub(*b) } }, {
            Box::new(move |x| {
                std::mem::swap(&mut a, &mut b);
                a += x;
                (a * 3).wrapping_sub(b)
            })
        }),
        2 => (Box::new(grow.bind_mut(text.clone())), {
            let mut t = text.clone();
            Box::new(move |x| {
                t.push_str(&x.to_string());
                t.len() as u64
            })
        }),
        3 => {
            let list = vec![1u64];
            (
                lambda! { move(a: u64, &b: &u64, &mut list: &mut Vec<u64>) |x: u64| -> u64 { list.push(x + a); list.iter().sum::<u64>() + *b } },
                {
                    let mut list = vec![1u64];
                    Box::new(move |x| {
                        list.push(x + a);
                        list.iter().sum::<u64>() + b
                    })
                },
            )
        }
        4 => {
            let (f, mut m) = fns(9).unwrap();
            (
                lambda! { move(&f: &F1, &mut a: &mut u64) |x: u64| -> u64 { *a += 1; f.call_object((x + *a,)) } },
                Box::new(move |x| {
                    a += 1;
                    m(x + a)
                }),
            )
        }
        5 => {
            let (f, mut m) = muts(0).unwrap();
            let (g, mut n) = muts(2).unwrap();
            (
                lambda! { move(&mut f: &mut M1, &mut g: &mut M1) |x: u64| -> u64 { f.call_object_mut((g.call_object_mut((x,)),)) } },
                Box::new(move |x| m(n(x))),
            )
        }
        6 => {
            let cache = vec![0u64, 1];
            let mut copy = cache.clone();
            (
                lambda! { move(&mut cache: &mut Vec<u64>) |n: u64| -> u64 {
                    let n = n as usize % 50;
                    while cache.len() <= n {
                        cache.push(cache[cache.len() - 2..].iter().sum());
                    }
                    cache[n] + 1000 * cache.len() as u64
                } },
                Box::new(move |n| {
                    let n = n as usize % 50;
                    while copy.len() <= n {
                        copy.push(copy[copy.len() - 2..].iter().sum());
                    }
                    copy[n] + 1000 * copy.len() as u64
                }),
            )
        }
        7 => {
            let slot: Option<F1> = None;
            let (first, mut m) = fns(3).map(|(f, m)| (Some(f), m)).unwrap();
            (
                lambda! { move(&mut slot: &mut Option<F1>, &mut first: &mut Option<F1>) |x: u64| -> u64 {
                    std::mem::swap(slot, first);
                    slot.as_ref().map_or(5, |f| f.call_object((x,)))
                } },
                {
                    let mut full = false;
                    Box::new(move |x| {
                        full = !full;
                        if full { m(x) } else { 5 }
                    })
                },
            )
        }
        #[cfg(feature = "nightly")]
        8 => (Box::new(muts(5).unwrap().0), muts(5).unwrap().1),
        _ => return None,
    })
}

pub fn onces(n: usize) -> Option<(O1, Box<dyn FnOnce(u64) -> u64>)> {
    let text = String::from("some text");
    let file = mc::util::memfd(&[1, 2, 3, 4]);
    Some(match n {
        0 => (lambda! { move(text: String) |x: u64| -> u64 { text.into_bytes().len() as u64 + x } }, Box::new(|x| 9 + x)),
        1 => (lambda! { move(file: File) |x: u64| -> u64 { let f = file; read(&f) + x } }, Box::new(|x| 20304 + x)),
        2 => {
            let (f, m) = onces(0).unwrap();
            (lambda! { move(f: O1) |x: u64| -> u64 { f.call_object_once((x,)) * 2 } }, Box::new(|x| m(x) * 2))
        }
        3 => {
            let two: Box<dyn FnOnceObject<(u64, u64), Output = u64>> = lambda! { move(text: String) |x: u64, y: u64| -> u64 { x * 10 + y + text.len() as u64 } };
            (Box::new(two.bind_value(4)), Box::new(|y| 49 + y))
        }
        4 => {
            let t = Box::new(text);
            let trio = 3;
            let list = vec![Some(file), None];
            (
                lambda! { move(t: Box<String>, trio: u64, list: Vec<Option<File>>) |x: u64| -> u64 { t.len() as u64 + trio + read(list[0].as_ref().unwrap()) + list.len() as u64 + x } },
                Box::new(|x| 9 + 3 + 20304 + 2 + x),
            )
        }
        5 => {
            let t = Delayed::new(text);
            (lambda! { move(t: Delayed<String>) |x: u64| -> u64 { t.deserialize().unwrap().len() as u64 + x } }, Box::new(|x| 9 + x))
        }
        6 => {
            let (mut m, mut n) = muts(0).unwrap();
            m.call_object_mut((5,));
            n(5);
            (lambda! { move(m: M1) |x: u64| -> u64 { let mut m = m; m.call_object_mut((x,)) + m.call_object_mut((x,)) } }, Box::new(move |x| n(x) + n(x)))
        }
        7 => (Box::new(onces(2).unwrap().0), onces(2).unwrap().1),
        _ => return None,
    })
}

#[func]
fn visit_fn(f: F1, xs: Vec<u64>) -> (Vec<u64>, F1) {
    (xs.iter().map(|x| f.call_object((*x,))).collect(), f)
}
#[func]
fn visit_mut(mut f: M1, xs: Vec<u64>) -> (Vec<u64>, M1) {
    (xs.iter().map(|x| f.call_object_mut((*x,))).collect(), f)
}
#[func]
fn visit_once(f: O1, x: u64) -> u64 {
    f.call_object_once((x,))
}
#[func]
fn visit_box(f: O1, x: u64) -> u64 {
    f.call_object_box((x,))
}
/// The object goes on to a grandchild and comes back.
#[func]
fn pass_on(f: M1, xs: Vec<u64>) -> (Vec<u64>, M1) {
    visit_mut.run(f, xs).unwrap()
}

fn e2s(e: std::io::Error) -> String {
    format!("running a child: {e}")
}

fn same(got: &[u64], want: &[u64]) -> Result<(), String> {
    ensure!(got == want, "{got:?} instead of {want:?}");
    Ok(())
}

fn fn_history(n: usize, depth: usize) -> Result<String, String> {
    let (mut f, mut m) = fns(n).unwrap();
    let mut log = Vec::new();
    for i in 0..depth {
        let op = choose(if cfg!(feature = "nightly") { 7 } else { 6 });
        log.push(op);
        let x = 3 + i as u64;
        match op {
            0 => same(&[f.call_object((x,)), f.call_object((x + 1,))], &[m(x), m(x + 1)])?,
            1 => same(&[f.call_object_mut((x,))], &[m(x)])?,
            2 => f = direct_with_handles(&f)?,
            3 => f = pass(&f)?,
            4 => {
                let (r, g) = visit_fn.run(f, vec![x, x + 1, x]).map_err(e2s)?;
                f = g;
                same(&r, &[m(x), m(x + 1), m(x)])?;
            }
            5 => {
                // As something less
                #[cfg(feature = "nightly")]
                {
                    let (r, _) = visit_mut.run(Box::new(f), vec![x, x]).map_err(e2s)?;
                    same(&r, &[m(x), m(x)])?;
                }
                #[cfg(not(feature = "nightly"))]
                same(&[visit_once.run(Box::new(f), x).map_err(e2s)?], &[m(x)])?;
                f = fns(n).unwrap().0;
            }
            #[cfg(feature = "nightly")]
            _ => same(&[f(x), f(x + 1)], &[m(x), m(x + 1)])?,
            #[cfg(not(feature = "nightly"))]
            _ => unreachable!(),
        }
    }
    let x = 50;
    let w = m(x);
    let r = match choose(4) {
        0 => f.call_object((x,)),
        1 => f.call_object_box((x,)),
        2 => visit_once.run(Box::new(f), x).map_err(e2s)?,
        _ => visit_box.run(Box::new(f), x).map_err(e2s)?,
    };
    same(&[r], &[w])?;
    Ok(format!("{n} {log:?}"))
}

fn mut_history(n: usize, depth: usize) -> Result<String, String> {
    let (mut f, mut m) = muts(n).unwrap();
    let mut log = Vec::new();
    for i in 0..depth {
        let op = choose(if cfg!(feature = "nightly") { 6 } else { 5 });
        log.push(op);
        let x = 3 + i as u64;
        match op {
            0 => same(&[f.call_object_mut((x,)), f.call_object_mut((x + 1,))], &[m(x), m(x + 1)])?,
            1 => f = direct_with_handles(&f)?,
            2 => f = pass(&f)?,
            3 | 4 => {
                let (r, g) = if op == 3 { visit_mut.run(f, vec![x, x + 1, x]) } else { pass_on.run(f, vec![x, x + 1, x]) }.map_err(e2s)?;
                f = g;
                same(&r, &[m(x), m(x + 1), m(x)])?;
            }
            #[cfg(feature = "nightly")]
            _ => same(&[f(x), f(x + 1)], &[m(x), m(x + 1)])?,
            #[cfg(not(feature = "nightly"))]
            _ => unreachable!(),
        }
    }
    let x = 50;
    let w = m(x);
    let r = match choose(3) {
        0 => f.call_object_box((x,)),
        1 => visit_once.run(Box::new(f), x).map_err(e2s)?,
        _ => visit_box.run(Box::new(f), x).map_err(e2s)?,
    };
    same(&[r], &[w])?;
    Ok(format!("{n} {log:?}"))
}

fn once_history(n: usize, depth: usize) -> Result<String, String> {
    let (mut f, m) = onces(n).unwrap();
    let mut log = Vec::new();
    // A delayed object is transferred exactly once
    let hops = if n == 5 { 1 } else { depth };
    for _ in 0..hops {
        let op = choose(3);
        log.push(op);
        match op {
            0 => break,
            1 => f = direct_with_handles(&f)?,
            _ => f = pass(&f)?,
        }
    }
    let x = 50;
    let w = m(x);
    let end = match n {
        5 if log == [0] => 2 + choose(2),
        5 => choose(2),
        _ => choose(4),
    };
    let r = match end {
        0 => f.call_object_once((x,)),
        1 => f.call_object_box((x,)),
        2 => visit_once.run(f, x).map_err(e2s)?,
        _ => visit_box.run(f, x).map_err(e2s)?,
    };
    same(&[r], &[w])?;
    Ok(format!("{n} {log:?} {end}"))
}

fn direct_with_handles<T: Object>(o: &T) -> Result<T, String> {
    let mut s = Serializer::new();
    s.serialize(o);
    s.serialize(&0x55AAu16);
    let h = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), h);
    unsafe {
        let r = d.deserialize().map_err(|e| e.to_string())?;
        ensure!(d.deserialize::<u16>().map_err(|e| e.to_string())? == 0x55AA, "what follows was altered");
        Ok(r)
    }
}

// Other signatures

type Later = Pin<Box<dyn Future<Output = u64>>>;

#[func(tokio(flavor = "current_thread"))]
async fn later_tokio(x: u64, y: String) -> u64 {
    tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    x * 10 + y.len() as u64
}
#[func(smol)]
async fn later_smol(x: u64, y: String) -> u64 {
    async_io::Timer::after(std::time::Duration::from_millis(1)).await;
    x * 10 + y.len() as u64
}
#[func(tokio(flavor = "current_thread"))]
async fn visit_tokio(f: Box<dyn FnOnceObject<(), Output = Later>>, list: Vec<F1>) -> u64 {
    let x = f.call_object_once(()).await;
    list.iter().fold(x, |x, f| f.call_object((x % 100,)))
}
#[func(smol)]
async fn visit_smol(f: Box<dyn FnOnceObject<(), Output = Later>>, list: Vec<F1>) -> u64 {
    let x = f.call_object_once(()).await;
    list.iter().fold(x, |x, f| f.call_object((x % 100,)))
}
#[func]
fn nothing() {}
#[func]
fn fails(x: u64) -> Result<u64, String> {
    if x == 0 { Err("zero".into()) } else { Ok(100 / x) }
}
#[func]
fn makes(x: u64) -> F1 {
    lambda! { move(x: u64) |y: u64| -> u64 { x * y } }
}
#[func]
fn opens(mut f: File) -> (File, u8) {
    let mut b = [0; 1];
    f.read_exact(&mut b).unwrap();
    (f, b[0])
}
#[func]
fn join_text(prefix: String, x: &str, n: usize) -> String {
    prefix + &x.repeat(n)
}
#[func]
fn all_three(list: Vec<Box<dyn FnOnceObject<(), Output = String>>>) -> Vec<String> {
    list.into_iter().map(|f| f.call_object_once(())).collect()
}
mod inner {
    #[crossmist::func]
    pub fn add_one(x: u64) -> u64 {
        x + 100
    }
}

fn async_case() -> Result<String, String> {
    let (runtime, visitor, path, bound) = (choose(2), choose(2), choose(3), choose(3));
    let text = "text".to_string();
    type Two = Box<dyn FnOnceObject<(u64, String), Output = Later>>;
    type One = Box<dyn FnOnceObject<(String,), Output = Later>>;
    type Zero = Box<dyn FnOnceObject<(), Output = Later>>;
    let run = |f: Later| if runtime == 0 { tokio(f) } else { smol(f) };
    let r = match bound {
        0 => {
            let f: Two = if runtime == 0 { Box::new(later_tokio) } else { Box::new(later_smol) };
            let f = match path { 0 => f, 1 => direct(&f)?, _ => pass(&f)? };
            run(f.call_object_once((7, text)))
        }
        1 => {
            let f: One = if runtime == 0 { Box::new(later_tokio.bind_value(7)) } else { Box::new(later_smol.bind_value(7)) };
            let f = match path { 0 => f, 1 => direct(&f)?, _ => pass(&f)? };
            run(f.call_object_once((text,)))
        }
        _ => {
            let f: Zero = if runtime == 0 { Box::new(later_tokio.bind_value(7).bind_value(text)) } else { Box::new(later_smol.bind_value(7).bind_value(text)) };
            let f = match path { 0 => f, 1 => direct(&f)?, _ => pass(&f)? };
            if visitor != runtime {
                run(f.call_object_once(()))
            } else {
                // In a child with a runtime of its own
                let list = vec![fns(2).unwrap().0, fns(5).unwrap().0];
                let w = [2, 5].iter().fold(74, |x, i| fns(*i).unwrap().1(x % 100));
                let r = if visitor == 0 { tokio(visit_tokio.run_tokio(f, list)) } else { visit_smol.run(f, list) };
                same(&[r.map_err(e2s)?], &[w])?;
                74
            }
        }
    };
    same(&[r], &[74])?;
    Ok(format!("{runtime} {visitor} {path} {bound}"))
}

fn signature_case() -> Result<String, String> {
    let n = choose(11);
    let how = choose(3);
    let text = || "some".to_string();
    match n {
        0 => match how {
            0 => nothing.run().map_err(e2s)?,
            1 => nothing.call_object(()),
            _ => direct(&(Box::new(nothing) as Box<dyn FnObject<(), Output = ()>>))?.call_object(()),
        },
        1 => {
            for x in [0, 3] {
                let w = if x == 0 { Err("zero".to_string()) } else { Ok(33) };
                let r = match how {
                    0 => fails.run(x).map_err(e2s)?,
                    1 => fails.call_object((x,)),
                    _ => direct(&(Box::new(fails) as Box<dyn FnObject<(u64,), Output = Result<u64, String>>>))?.call_object((x,)),
                };
                ensure!(r == w, "{r:?} instead of {w:?}");
            }
        }
        2 => {
            let f = match how {
                0 => makes.run(6).map_err(e2s)?,
                1 => makes.call_object((6,)),
                _ => pass(&makes.call_object((6,)))?,
            };
            same(&[f.call_object((7,))], &[42])?;
        }
        3 => {
            let f = mc::util::memfd(b"abc");
            std::io::Seek::rewind(&mut &f).unwrap();
            let ino = { use std::os::fd::AsRawFd; mc::util::ino(f.as_raw_fd()) };
            let (g, b) = match how {
                0 => opens.run(f).map_err(e2s)?,
                1 => opens.call_object((f,)),
                _ => opens.bind_value(f).call_object_once(()),
            };
            use std::os::fd::AsRawFd;
            ensure!(b == b'a' && mc::util::ino(g.as_raw_fd()) == ino, "another file");
        }
        4 => {
            let f: Box<dyn for<'a> FnOnceObject<(&'a str, usize), Output = String>> = Box::new(join_text.bind_value(text()));
            let f = match how { 0 => f, 1 => direct(&f)?, _ => pass(&f)? };
            let r = f.call_object_once(("ab", 3));
            ensure!(r == "someababab", "{r}");
        }
        5 => {
            let (a, b, c) = (text(), text(), 5u64);
            let list: Vec<Box<dyn FnOnceObject<(), Output = String>>> = vec![
                lambda! { move(a: String) || -> String { a } },
                lambda! { move(&b: &String, c: u64) || -> String { format!("{b}{c}") } },
                lambda! { || -> String { "none".into() } },
            ];
            let r = match how {
                0 => all_three.run(list).map_err(e2s)?,
                1 => all_three.call_object((list,)),
                _ => all_three.bind_value(list).call_object_once(()),
            };
            ensure!(r == ["some", "some5", "none"], "{r:?}");
        }
        6 => {
            let r = match how {
                0 => identity.run(text()).map_err(e2s)?,
                1 => identity.call_object((text(),)),
                _ => identity.bind_value(text()).call_object_once(()),
            };
            ensure!(r == "some", "{r}");
            let r: u8 = match how {
                0 => identity.run(200).map_err(e2s)?,
                1 => identity.call_object((200,)),
                _ => identity.bind_value(200).call_object(()),
            };
            ensure!(r == 200, "{r}");
        }
        7 => {
            let r = match how {
                0 => swap.run(text(), 5u16).map_err(e2s)?,
                1 => swap.call_object((text(), 5u16)),
                _ => BindValue::<String, (u16,)>::bind_value(swap, text()).call_object_once((5u16,)),
            };
            ensure!(r == (5, text()), "{r:?}");
        }
        8 => {
            // Two functions of one name
            let f: F1 = Box::new(inner::add_one);
            let g: F1 = Box::new(add_one);
            let (f, g) = match how {
                0 => (f, g),
                1 => direct(&(f, g))?,
                _ => pass(&(f, g))?,
            };
            same(&[f.call_object((1,)), g.call_object((1,)), inner::add_one.run(1).map_err(e2s)?], &[101, 2, 101])?;
        }
        9 => {
            // References in all places, without transfer
            let mut z = 4;
            let r = match how {
                0 => fma.call_object((2, &5, &mut z)),
                1 => fma.bind_value(2).call_object((&5, &mut z)),
                _ => fma.bind_value(2).bind_ref(5).call_object((&mut z,)),
            };
            same(&[r, z], &[2 + 5 * 17, 17])?;
        }
        _ => {
            // Functions that differ in their captures only
            let list: Vec<F1> = (0..5u64).map(|i| lambda! { move(i: u64) |x: u64| -> u64 { x * 10 + i } } as F1).collect();
            let list = match how { 0 => list, 1 => direct(&list)?, _ => pass(&list)? };
            let r: Vec<_> = list.iter().map(|f| f.call_object((9,))).collect();
            same(&r, &[90, 91, 92, 93, 94])?;
        }
    }
    Ok(format!("{n} {how}"))
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    let depth = if thorough { 4 } else { 2 };
    let mut v = Vec::new();
    for n in (0..).take_while(|n| fns(*n).is_some()) {
        v.push(Scenario::new(format!("fn/{n}"), 0, move || clean(|| fn_history(n, depth))));
    }
    for n in (0..).take_while(|n| muts(*n).is_some()) {
        v.push(Scenario::new(format!("mut/{n}"), 0, move || clean(|| mut_history(n, depth))));
    }
    for n in (0..).take_while(|n| onces(*n).is_some()) {
        v.push(Scenario::new(format!("once/{n}"), 0, move || clean(|| once_history(n, depth + 1))));
    }
    v.push(Scenario::new("async", 0, || {
        tokio(async { tokio::time::sleep(std::time::Duration::from_millis(1)).await });
        smol(async_io::Timer::after(std::time::Duration::from_millis(1)));
        clean(async_case)
    }));
    v.push(Scenario::new("signatures", 0, || clean(signature_case)));
    v
}

fn clean(f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    let before = mc::util::open_fds().len();
    let r = f()?;
    ensure!(mc::util::open_fds().len() == before, "handles leaked");
    Ok(r)
}
