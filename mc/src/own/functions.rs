//! Callables: every short history of calls, transfers and panics.
use crate::track::*;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject};
use mc::run::Tier;
use mc::{ensure, Scenario};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Asks the function to panic.
const BOOM: u64 = 13;

fn used(toks: &[&Tok], x: u64) -> u64 {
    toks.iter().for_each(|t| t.check());
    if x == BOOM {
        resume_unwind(Box::new(()));
    }
    toks.iter().map(|t| t.key).sum::<u64>() + x
}

#[func]
fn values(a: Tok, b: Tok, x: u64) -> u64 {
    used(&[&a, &b], x)
}
#[func]
fn refs(a: &Tok, b: &Tok, x: u64) -> u64 {
    used(&[a, b], x)
}
#[func]
fn muts(a: &mut Tok, b: &mut Tok, x: u64) -> u64 {
    std::mem::swap(a, b);
    used(&[a, b], x)
}
#[func]
fn mixed(a: Tok, b: &Tok, x: u64) -> u64 {
    used(&[&a, b], x)
}
#[func]
fn mixed_mut(a: &mut Tok, b: &Tok, x: u64) -> u64 {
    *a = Tok::new();
    used(&[a, b], x)
}
#[func]
fn replaced(a: Tok, slot: &mut Option<Tok>, x: u64) -> u64 {
    *slot = Some(a);
    used(&[slot.as_ref().unwrap()], x)
}
#[func]
fn taken(a: Tok, x: u64) -> Tok {
    used(&[&a], x);
    a
}

type O = Box<dyn FnOnceObject<(u64,), Output = u64>>;
type M = Box<dyn FnMutObject<(u64,), Output = u64>>;
type F = Box<dyn FnObject<(u64,), Output = u64>>;
type T = Box<dyn FnOnceObject<(u64,), Output = Tok>>;

fn once(i: usize) -> Option<O> {
    let (a, b) = (Tok::new(), Tok::new());
    Some(match i {
        0 => Box::new(values.bind_value(a).bind_value(b)),
        1 => Box::new(refs.bind_ref(a).bind_ref(b)),
        2 => Box::new(muts.bind_mut(a).bind_mut(b)),
        3 => Box::new(mixed.bind_value(a).bind_ref(b)),
        4 => Box::new(mixed_mut.bind_mut(a).bind_ref(b)),
        5 => Box::new(replaced.bind_value(a).bind_mut(Some(b))),
        6 => lambda! { move(a: Tok, b: Tok) |x: u64| -> u64 { used(&[&a, &b], x) } },
        7 => lambda! { move(a: Tok, &b: &Tok) |x: u64| -> u64 { let r = used(&[&a, b], x); drop(a); r } },
        8 => lambda! { move(a: Tok, &mut b: &mut Tok) |x: u64| -> u64 { *b = a; used(&[b], x) } },
        9 => {
            let f: F = func_of(0).unwrap();
            let g: O = once(6).unwrap();
            lambda! { move(a: Tok, f: F, g: O) |x: u64| -> u64 { used(&[&a], x) + f.call_object((x,)) + g.call_object_once((x,)) } }
        }
        _ => return None,
    })
}
fn mutable(i: usize) -> Option<M> {
    let (a, b) = (Tok::new(), Tok::new());
    Some(match i {
        0 => Box::new(refs.bind_ref(a).bind_ref(b)),
        1 => Box::new(muts.bind_mut(a).bind_mut(b)),
        2 => Box::new(mixed_mut.bind_mut(a).bind_ref(b)),
        3 => lambda! { move(&mut a: &mut Tok, &b: &Tok) |x: u64| -> u64 { *a = Tok::new(); used(&[a, b], x) } },
        4 => {
            let m: M = mutable(3).unwrap();
            let a = vec![a, b];
            lambda! { move(&mut a: &mut Vec<Tok>, &mut m: &mut M) |x: u64| -> u64 { a.push(Tok::new()); m.call_object_mut((x,)) } }
        }
        _ => return None,
    })
}
fn func_of(i: usize) -> Option<F> {
    let (a, b) = (Tok::new(), Tok::new());
    Some(match i {
        0 => Box::new(refs.bind_ref(a).bind_ref(b)),
        1 => lambda! { move(&a: &Tok, &b: &Tok) |x: u64| -> u64 { used(&[a, b], x) } },
        2 => {
            let f: F = func_of(1).unwrap();
            let y = b.key;
            lambda! { move(&f: &F, &a: &Tok, y: u64) |x: u64| -> u64 { used(&[a], x) + f.call_object((x,)) + y } }
        }
        _ => return None,
    })
}

fn pass<X: crossmist::Object>(o: &X) -> std::io::Result<X> {
    let (mut tx, mut rx) = crossmist::channel::<X>()?;
    tx.send(o)?;
    Ok(rx.recv()?.unwrap())
}

/// Call it, possibly with a panic. Whether it panicked as asked.
fn call(f: impl FnOnce(u64) -> u64) -> Result<bool, String> {
    let x = [1, BOOM][pick(2)];
    match catch_unwind(AssertUnwindSafe(|| f(x))) {
        Ok(_) => {
            ensure!(x != BOOM, "the panic was lost");
            Ok(false)
        }
        Err(p) => {
            ensure!(x == BOOM, "panic: {}", mc::run::panic_text(&p));
            Ok(true)
        }
    }
}

/// What to do with the callable next.
fn history(v: &mut Vec<Scenario>, name: String, depth: usize, make: impl Fn() -> Callable + 'static) {
    v.push(Scenario::new(name, 0, move || {
        owned(|| {
            let mut f = make();
            let mut log = String::with_capacity(100);
            let mut closed = false;
            for _ in 0..depth {
                match pick(5) {
                    0 => break,
                    1 => {
                        log.push('t');
                        let g = match &f {
                            Callable::O(x) => pass(x).map(Callable::O),
                            Callable::M(x) => pass(x).map(Callable::M),
                            Callable::F(x) => pass(x).map(Callable::F),
                        };
                        f = g.map_err(|e| format!("transfer: {e}"))?;
                    }
                    2 => {
                        log.push('f');
                        // The transfer fails
                        fail_at(1, false);
                        let r = match &f {
                            Callable::O(x) => pass(x).is_ok(),
                            Callable::M(x) => pass(x).is_ok(),
                            Callable::F(x) => pass(x).is_ok(),
                        };
                        ensure!(!r, "an error was lost");
                    }
                    3 => {
                        log.push('c');
                        match &mut f {
                            Callable::O(_) => return Ok(("~".into(), false)),
                            Callable::M(m) => call(|x| m.call_object_mut((x,)))?,
                            Callable::F(f) => call(|x| f.call_object((x,)))?,
                        };
                    }
                    _ => {
                        log.push('o');
                        let how = pick(2);
                        let g = match f {
                            Callable::O(g) => call(|x| if how == 0 { g.call_object_once((x,)) } else { g.call_object_box((x,)) })?,
                            Callable::M(g) => call(|x| if how == 0 { g.call_object_once((x,)) } else { g.call_object_box((x,)) })?,
                            Callable::F(g) => call(|x| if how == 0 { g.call_object_once((x,)) } else { g.call_object_box((x,)) })?,
                        };
                        let _ = g;
                        closed = true;
                        break;
                    }
                }
            }
            let _ = closed;
            Ok((log, false))
        })
    }));
}

enum Callable {
    O(O),
    M(M),
    F(F),
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let depth = if tier == Tier::Thorough { 4 } else { 3 };
    let mut v = Vec::new();
    for i in 0..10 {
        history(&mut v, format!("once/{i}"), depth, move || Callable::O(once(i).unwrap()));
    }
    for i in 0..5 {
        history(&mut v, format!("mut/{i}"), depth, move || Callable::M(mutable(i).unwrap()));
        history(&mut v, format!("mut-once/{i}"), depth, move || Callable::O(Box::new(mutable(i).unwrap())));
    }
    for i in 0..3 {
        history(&mut v, format!("fn/{i}"), depth, move || Callable::F(func_of(i).unwrap()));
        #[cfg(feature = "nightly")]
        history(&mut v, format!("fn-mut/{i}"), depth, move || Callable::M(Box::new(func_of(i).unwrap())));
        history(&mut v, format!("fn-once/{i}"), depth, move || Callable::O(Box::new(func_of(i).unwrap())));
    }
    v.push(Scenario::new("result", 0, || {
        owned(|| {
            let t: T = Box::new(taken.bind_value(Tok::new()));
            let t = if pick(2) == 0 { t } else { pass(&t).map_err(|e| e.to_string())? };
            let x = [1, BOOM][pick(2)];
            let r = catch_unwind(AssertUnwindSafe(|| t.call_object_once((x,))));
            ensure!(r.is_ok() == (x != BOOM), "wrong outcome");
            r.iter().for_each(Tok::check);
            Ok(("called".into(), false))
        })
    }));
    v
}
