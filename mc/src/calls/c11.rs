//! C11: callable objects: all small ways of binding arguments, in all short histories of calls and transfers.
use crate::pass;
use crossmist::{func, Deserializer, Object, Serializer};
use mc::run::Tier;
use mc::{choose, ensure, Scenario};
use std::future::Future;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

#[path = "extra.rs"]
mod extra;
#[path = "fns.rs"]
mod fns;

/// Objects alive in this process.
static LIVE: AtomicI64 = AtomicI64::new(0);

/// A value that cannot be copied.
pub struct Tok(u64);
impl Tok {
    fn new(x: u64) -> Tok {
        LIVE.fetch_add(1, Relaxed);
        Tok(x)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
unsafe impl crossmist::NonTrivialObject for Tok {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        Ok(Tok::new(d.deserialize()?))
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    (a ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29).wrapping_add(b)
}

/// What all functions compute.
fn reference(modes: &str, v: &mut [u64]) -> u64 {
    let acc = v.iter().fold(17, |acc, x| mix(acc, *x));
    for (m, x) in modes.chars().zip(v) {
        if m.eq_ignore_ascii_case(&'m') {
            *x = mix(*x, acc);
        }
    }
    acc
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Level {
    Fn,
    Mut,
    Once,
}
pub struct LFn;
pub struct LMut;
pub struct LOnce;

/// A function, how it may be called, and what has to be passed.
#[derive(Object)]
pub struct C<F: Object, L: 'static, S: 'static>(F, PhantomData<(L, S)>);

pub trait Callable: Object {
    fn call(&mut self, how: usize, v: &mut [u64]) -> Option<u64>;
    fn once(self: Box<Self>, how: usize, v: &mut [u64]) -> u64;
}

macro_rules! callable {
    ($s:ident, $tup:ty, $v:ident, [$($pre:tt)*], $args:expr, [$($post:tt)*], $direct:tt) => {
        callable! { @ LFn, FnObject, $s, $tup, $v, [$($pre)*], $args, [$($post)*], $direct, |f, how| {
            match how {
                0 => f.call_object($args),
                1 => f.call_object_mut($args),
                #[cfg(feature = "nightly")]
                2 => (&*f) $direct,
                #[cfg(feature = "nightly")]
                3 => (&mut *f) $direct,
                _ => return None,
            }
        } }
        callable! { @ LMut, FnMutObject, $s, $tup, $v, [$($pre)*], $args, [$($post)*], $direct, |f, how| {
            match how {
                1 => f.call_object_mut($args),
                #[cfg(feature = "nightly")]
                3 => (&mut *f) $direct,
                _ => return None,
            }
        } }
        callable! { @ LOnce, FnOnceObject, $s, $tup, $v, [$($pre)*], $args, [$($post)*], $direct, |_f, _how| { return None } }
    };
    (@ $l:ident, $tr:ident, $s:ident, $tup:ty, $v:ident, [$($pre:tt)*], $args:expr, [$($post:tt)*], $direct:tt, |$f:ident, $how:ident| $body:block) => {
        impl<F> Callable for C<F, $l, $s>
        where
            F: for<'a> $tr<$tup, Output = u64>,
        {
            #[allow(unused, unreachable_code)]
            fn call(&mut self, $how: usize, $v: &mut [u64]) -> Option<u64> {
                $($pre)*
                let $f = &mut self.0;
                let r = $body;
                $($post)*
                Some(r)
            }
            #[allow(unused)]
            fn once(self: Box<Self>, how: usize, $v: &mut [u64]) -> u64 {
                $($pre)*
                let f = self.0;
                let r = match how {
                    0 => f.call_object_once($args),
                    #[cfg(feature = "nightly")]
                    2 => FnOnce::call_once(f, $args),
                    _ => Box::new(f).call_object_box($args),
                };
                $($post)*
                r
            }
        }
    };
}
use callable;

pub struct Case {
    name: &'static str,
    modes: &'static str,
    bound: usize,
    level: Level,
    make: fn(&[u64]) -> Box<dyn Callable>,
}
pub type Run = (&'static str, &'static str, Box<dyn Fn(&[u64], usize) -> std::io::Result<u64>>);

fn tokio<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
fn smol<F: Future>(f: F) -> F::Output {
    async_io::block_on(f)
}

/// Another process calls it in all ways in turn. Returns what the calls returned and left in the arguments.
#[func]
fn visit(mut c: Box<dyn Callable>, calls: Vec<usize>, v: Vec<u64>) -> (Vec<(u64, Vec<u64>)>, Box<dyn Callable>, i64) {
    let live = LIVE.load(Relaxed);
    let mut r = Vec::new();
    for how in calls {
        let mut v = v.clone();
        if let Some(x) = c.call(how, &mut v) {
            r.push((x, v));
        }
    }
    let live = LIVE.load(Relaxed) - live;
    (r, c, live)
}
/// The last call is in another process.
#[func]
fn finish(c: Box<dyn Callable>, how: usize, mut v: Vec<u64>) -> (u64, Vec<u64>, i64) {
    let r = c.once(how, &mut v);
    (r, v, LIVE.load(Relaxed))
}

fn direct<T: Object>(o: &T) -> Result<T, String> {
    let mut s = Serializer::new();
    s.serialize(o);
    s.serialize(&0x55AAu16);
    let mut d = Deserializer::new(s.into_vec(), Vec::new());
    unsafe {
        let r = d.deserialize().map_err(|e| e.to_string())?;
        ensure!(d.deserialize::<u16>().map_err(|e| e.to_string())? == 0x55AA, "what follows was altered");
        Ok(r)
    }
}

const HOWS: usize = if cfg!(feature = "nightly") { 4 } else { 2 };

fn history(case: &Case, depth: usize, children: usize) -> Result<String, String> {
    let live = LIVE.load(Relaxed);
    let Case { modes, bound, level, .. } = *case;
    let mut state: Vec<u64> = (0..modes.len() as u64).map(|i| (i + 1).wrapping_mul(0x0123_4567_89AB_CDEF) ^ !i).collect();
    let args = state[bound..].to_vec();
    let mut c = (case.make)(&state);
    let mut log = Vec::new();
    // What the calls of `reference` give; the object's state is in `state[..bound]`
    let expect = |state: &mut Vec<u64>| {
        let mut v = state.clone();
        let r = reference(modes, &mut v);
        state[..bound].copy_from_slice(&v[..bound]);
        (r, v[bound..].to_vec())
    };
    let hows: &[usize] = match level {
        Level::Fn => &[0, 1, 2, 3][..HOWS],
        Level::Mut => &[1, 3][..HOWS / 2],
        Level::Once => &[],
    };
    let mut visits = 0;
    for _ in 0..depth {
        // Stop here, transfer the object, have a child call it, or call it
        let op = choose(4 + hows.len());
        log.push(op);
        match op {
            0 => break,
            1 => c = direct(&c)?,
            2 => c = pass(&c)?,
            3 => {
                visits += 1;
                if visits > children {
                    return Ok("~ enough visits".into());
                }
                let (r, back, live) =
                    visit.run(c, hows.to_vec(), args.clone()).map_err(|e| format!("running a child: {e}"))?;
                ensure!(live == 0, "{live} objects too many in the child");
                ensure!(r.len() == hows.len(), "calls were not made");
                for (n, r) in r.into_iter().enumerate() {
                    let w = expect(&mut state);
                    ensure!(r == w, "call {n} in the child: {r:x?} instead of {w:x?}");
                }
                c = back;
            }
            _ => {
                let mut v = args.clone();
                let r = c.call(hows[op - 4], &mut v).ok_or("cannot be called")?;
                let w = expect(&mut state);
                ensure!((r, &v) == (w.0, &w.1), "{r:x} {v:x?} instead of {w:x?}");
            }
        }
    }
    let once = choose(if HOWS == 4 { 3 } else { 2 } + 2);
    log.push(100 + once);
    let w = expect(&mut state);
    let mut v = args;
    match once {
        0 => drop(c),
        1 if visits < children => {
            let (r, v, live) = finish.run(c, 0, v).map_err(|e| format!("running a child: {e}"))?;
            ensure!((r, &v) == (w.0, &w.1), "finally, in the child: {r:x} {v:x?} instead of {w:x?}");
            ensure!(live == 0, "{live} objects too many in the child");
        }
        1 => return Ok("~ enough visits".into()),
        how => {
            let r = c.once(how - 2, &mut v);
            ensure!((r, &v) == (w.0, &w.1), "finally: {r:x} {v:x?} instead of {w:x?}");
        }
    }
    ensure!(LIVE.load(Relaxed) == live, "{} objects too many", LIVE.load(Relaxed) - live);
    Ok(format!("{} {log:?}", case.name))
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    for case in fns::cases() {
        v.push(Scenario::new(case.name, 0, move || history(&case, if thorough { 3 } else { 2 }, if thorough { 2 } else { 1 })));
    }
    v.extend(extra::scenarios(thorough));
    for (name, modes, run) in fns::runs() {
        v.push(Scenario::new(format!("run {name}"), 0, move || {
            let how = choose(6);
            let mut h: Vec<u64> = (0..modes.len() as u64).map(|i| (i + 3).wrapping_mul(0x0F1E_2D3C_4B5A_6978)).collect();
            let r = run(&h, how).map_err(|e| format!("running a child: {e}"))?;
            let w = reference(modes, &mut h);
            ensure!(r == w, "{r:x} instead of {w:x}");
            ensure!(LIVE.load(Relaxed) == 0, "objects left");
            Ok(format!("{how}"))
        }));
    }
    v
}
