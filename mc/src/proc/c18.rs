//! C18: which function runs where, and how often.
use crate::lots::{call, everything, LOTS};
use crate::{clean, tokio, warm, Log};
use crossmist::{func, Object};
use mc::run::Tier;
use mc::sched::{self, Body};
use mc::{choose, ensure, sys, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

/// A process and those it spawns.
#[derive(Object, Clone, Debug)]
pub struct Tree {
    id: u32,
    /// The function that it runs (blocking, tokio, smol) and how it is spawned.
    flavor: u8,
    method: u8,
    /// How it spawns: 0 one after the other, 1 all and then joins, 2 joins in reverse, 3 from threads
    mode: u8,
    kids: Vec<Tree>,
}

/// Every process appends one record.
fn record(log: i32, id: u32) {
    let r = format!("{id} {} {}\n", std::process::id(), std::os::unix::process::parent_id());
    assert_eq!(unsafe { libc::write(log, r.as_ptr() as *const _, r.len()) }, r.len() as isize);
}

/// What a process returns: its id, its process id, and for every process spawned the id of it that
/// its child object reported, and its answer.
#[derive(Object, Clone, Debug)]
pub struct Answer {
    id: u32,
    pid: u32,
    kids: Vec<(u32, Answer)>,
}

#[func]
fn node(t: Tree, log: i32) -> Answer {
    record(log, t.id);
    grow_blocking(t, log)
}
#[func(tokio(flavor = "current_thread"))]
async fn node_tokio(t: Tree, log: i32) -> Answer {
    record(log, t.id);
    grow(t, log, 1).await
}
#[func(smol)]
async fn node_smol(t: Tree, log: i32) -> Answer {
    record(log, t.id);
    grow(t, log, 2).await
}

type Joining = Box<dyn FnOnce() -> Answer + Send>;

/// Spawn a tree with blocking calls only.
fn start(t: Tree, log: i32) -> (u32, Joining) {
    macro_rules! with {
        ($f:ident) => {
            match t.method {
                0 => {
                    let c = $f.spawn(t, log).unwrap();
                    (c.id() as u32, Box::new(move || c.join().unwrap()) as Joining)
                }
                1 => {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    let c = rt.block_on($f.spawn_tokio(t, log)).unwrap();
                    (c.id() as u32, Box::new(move || rt.block_on(c.join()).unwrap()) as Joining)
                }
                _ => {
                    let c = async_io::block_on($f.spawn_smol(t, log)).unwrap();
                    (c.id() as u32, Box::new(move || async_io::block_on(c.join()).unwrap()) as Joining)
                }
            }
        };
    }
    match t.flavor {
        0 => with!(node),
        1 => with!(node_tokio),
        _ => with!(node_smol),
    }
}

fn grow_blocking(t: Tree, log: i32) -> Answer {
    let kids = match t.mode {
        0 => t
            .kids
            .into_iter()
            .map(|k| {
                let (pid, j) = start(k, log);
                (pid, j())
            })
            .collect(),
        3 => {
            let hs: Vec<_> = t
                .kids
                .into_iter()
                .map(|k| {
                    std::thread::spawn(move || {
                        let (pid, j) = start(k, log);
                        (pid, j())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        }
        m => {
            let mut js: Vec<_> = t.kids.into_iter().map(|k| start(k, log)).collect();
            if m == 2 {
                js.reverse();
            }
            let mut v: Vec<_> = js.into_iter().map(|(pid, j)| (pid, j())).collect();
            if m == 2 {
                v.reverse();
            }
            v
        }
    };
    Answer { id: t.id, pid: std::process::id(), kids }
}

/// Spawn a tree within an executor.
fn grow(t: Tree, log: i32, flavor: u8) -> Pin<Box<dyn Future<Output = Answer>>> {
    type J = Pin<Box<dyn Future<Output = Answer>>>;
    async fn start_async(t: Tree, log: i32, flavor: u8) -> (u32, J) {
        macro_rules! with {
            ($f:ident) => {
                match t.method {
                    1 if flavor == 1 => {
                        let c = $f.spawn_tokio(t, log).await.unwrap();
                        (c.id() as u32, Box::pin(async { c.join().await.unwrap() }) as J)
                    }
                    2 => {
                        let c = $f.spawn_smol(t, log).await.unwrap();
                        (c.id() as u32, Box::pin(async { c.join().await.unwrap() }) as J)
                    }
                    _ => {
                        let c = $f.spawn(t, log).unwrap();
                        (c.id() as u32, Box::pin(async { c.join().unwrap() }) as J)
                    }
                }
            };
        }
        match t.flavor {
            0 => with!(node),
            1 => with!(node_tokio),
            _ => with!(node_smol),
        }
    }
    Box::pin(async move {
        let mut kids = Vec::new();
        if t.mode == 0 {
            for k in t.kids {
                let (pid, j) = start_async(k, log, flavor).await;
                kids.push((pid, j.await));
            }
        } else {
            let mut js = Vec::new();
            for k in t.kids {
                js.push(start_async(k, log, flavor).await);
            }
            if t.mode == 2 {
                js.reverse();
            }
            for (pid, j) in js {
                kids.push((pid, j.await));
            }
            if t.mode == 2 {
                kids.reverse();
            }
        }
        Answer { id: t.id, pid: std::process::id(), kids }
    })
}

/// Compare the records and the answer to the tree.
fn judge(t: &Tree, pid: u32, a: &Answer, log: &Log) -> Result<(), String> {
    let text = String::from_utf8_lossy(&log.take()).into_owned();
    ensure!(!text.contains("main"), "a child executed the main body of the program");
    let mut records: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
    for l in text.lines() {
        let x: Vec<u32> = l.split(' ').map(|x| x.parse().unwrap()).collect();
        records.entry(x[0]).or_default().push((x[1], x[2]));
    }
    let mut pids = BTreeSet::from([std::process::id()]);
    fn walk(
        t: &Tree, pid: u32, parent: u32, a: &Answer, records: &mut BTreeMap<u32, Vec<(u32, u32)>>, pids: &mut BTreeSet<u32>,
    ) -> Result<(), String> {
        let id = t.id;
        let r = records.remove(&id).unwrap_or_default();
        ensure!(r.len() == 1, "function {id} was executed {} times", r.len());
        ensure!(a.id == id, "the answer of function {} instead of {id}", a.id);
        ensure!(r[0].0 == pid, "function {id} was executed in process {}, not in the child {pid}", r[0].0);
        ensure!(a.pid == pid, "function {id} returned from another process");
        ensure!(r[0].1 == parent, "the process of function {id} is not a child of the process that spawned it");
        ensure!(pids.insert(pid), "function {id} was executed in a process that is not new");
        ensure!(a.kids.len() == t.kids.len(), "answers are missing");
        for (k, (kp, ka)) in t.kids.iter().zip(&a.kids) {
            walk(k, *kp, pid, ka, records, pids)?;
        }
        Ok(())
    }
    walk(t, pid, std::process::id(), a, &mut records, &mut pids)?;
    ensure!(records.is_empty(), "functions were executed that nobody spawned: {records:?}");
    Ok(())
}

/// All ordered trees with `n` nodes, as numbers of children in preorder.
fn shapes(n: usize) -> Vec<Vec<usize>> {
    fn forests(n: usize) -> Vec<Vec<Vec<usize>>> {
        // Lists of trees with n nodes in total
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = Vec::new();
        for first in 1..=n {
            for t in shapes(first) {
                for rest in forests(n - first) {
                    let mut f = vec![t.clone()];
                    f.extend(rest);
                    out.push(f);
                }
            }
        }
        out
    }
    forests(n - 1)
        .into_iter()
        .map(|f| {
            let mut s = vec![f.len()];
            s.extend(f.into_iter().flatten());
            s
        })
        .collect()
}

fn build(shape: &[usize], at: &mut usize, pick: &mut impl FnMut(usize, usize) -> (u8, u8, u8)) -> Tree {
    let i = *at;
    *at += 1;
    let (flavor, method, mode) = pick(i, shape[i]);
    let kids = (0..shape[i]).map(|_| build(shape, at, pick)).collect();
    Tree { id: 100 + i as u32, flavor, method, mode, kids }
}

fn watch_main(log: &Log) {
    std::env::set_var("MC_MAIN", log.fd().to_string());
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    for n in 1..=if thorough { 6 } else { 4 } {
        for (si, shape) in shapes(n).into_iter().enumerate() {
            for first in 0..9u8 {
                let shape = shape.clone();
                v.push(Scenario::new(format!("tree/{n}/{si}/{first}"), 0, move || {
                    warm();
                    let log = Log::new();
                    watch_main(&log);
                    // Large trees: one way to spawn for each flavour, chosen for the levels
                    let full = n <= 3;
                    let mut picks = Vec::new();
                    for i in 0..n {
                        let c = if i == 0 {
                            first
                        } else if full {
                            choose(9) as u8
                        } else if n == 4 && thorough {
                            [0, 4, 8, 5][choose(4)]
                        } else {
                            [0, 4, 8][(first as usize + i + choose(2)) % 3]
                        };
                        picks.push((c % 3, c / 3));
                    }
                    let mode = choose(4) as u8;
                    let t = build(&shape, &mut 0, &mut |i, _| (picks[i].0, picks[i].1, mode));
                    if mode > 0 && shape.iter().all(|k| *k < 2) {
                        return Ok("~the same as one after the other".into());
                    }
                    clean(|| {
                        let (pid, join) = start(t.clone(), log.fd());
                        let a = join();
                        judge(&t, pid, &a, &log).map_err(|m| format!("{t:?}: {m}"))
                    })?;
                    Ok(format!("{picks:?} {mode}"))
                }));
            }
        }
    }
    // Which function?
    for group in 0..5 {
        v.push(Scenario::new(format!("functions/{group}"), 0, move || {
            warm();
            let log = Log::new();
            watch_main(&log);
            let which = choose(LOTS.len());
            let how = choose(6);
            let x = 7 * which as u32 + how as u32;
            clean(|| {
                let r = call(which, group, how, x).map_err(|e| e.to_string())?;
                ensure!(r == ((which + 100 * group) as u32, x), "function {which} of group {group}: {r:?}");
                ensure!(log.take().is_empty(), "a child executed the main body of the program");
                Ok(())
            })?;
            Ok(format!("{which} {how}"))
        }));
    }
    v.push(Scenario::new("functions/all", 0, move || {
        warm();
        let log = Log::new();
        watch_main(&log);
        let how = choose(6);
        let r = clean(|| everything(how).map_err(|e| format!("{e}")))?;
        r?;
        ensure!(log.take().is_empty(), "a child executed the main body of the program");
        Ok(format!("{how}"))
    }));
    // Spawns of several threads
    for actors in 2..=3usize {
        let budget = match (actors, thorough) {
            (2, false) => 2,
            (2, true) => 5,
            (_, false) => 1,
            (_, true) => 3,
        };
        v.push(Scenario::new(format!("threads/{actors}"), budget, move || {
            warm();
            let log = Log::new();
            watch_main(&log);
            clean(|| {
                let results = std::sync::Mutex::new(Vec::new());
                let list: Vec<(&'static str, Body)> = (0..actors)
                    .map(|i| {
                        let (log, results) = (&log, &results);
                        let b: Body = Box::new(move || {
                            let t = Tree { id: i as u32, flavor: 0, method: 0, mode: 0, kids: vec![] };
                            let c = node.spawn(t, log.fd()).map_err(|e| e.to_string())?;
                            let pid = c.id() as u32;
                            let a = sys::uncontrolled(|| c.join()).map_err(|e| e.to_string())?;
                            results.lock().unwrap().push((pid, a, i as u32));
                            Ok(())
                        });
                        (["one", "two", "three"][i], b)
                    })
                    .collect();
                sched::run(list)?;
                let rs = results.into_inner().unwrap();
                let leaf = |id| Tree { id, flavor: 0, method: 0, mode: 0, kids: vec![] };
                for r in &rs {
                    ensure!(r.1.id == r.2, "the answer of another function");
                }
                let t = Tree { id: 999, flavor: 0, method: 0, mode: 0, kids: rs.iter().map(|r| leaf(r.1.id)).collect() };
                let me = std::process::id();
                record_for(&log, 999, me);
                let a = Answer { id: 999, pid: me, kids: rs.into_iter().map(|r| (r.0, r.1)).collect() };
                judge_root(&t, &a, &log)
            })?;
            Ok(String::new())
        }));
    }
    // Without initialisation, and with several of them
    for how in ["blocking", "tokio", "smol", "run"] {
        for init in 0..4 {
            v.push(Scenario::new(format!("init/{init}/{how}"), 0, move || {
                let log = Log::new();
                let out = Command::new("/proc/self/exe")
                    .env("MC_INIT", format!("{init}:{how}:{}", log.fd()))
                    .env_remove("MC_MAIN")
                    .stdin(Stdio::null())
                    .output()
                    .map_err(|e| e.to_string())?;
                let ran = String::from_utf8_lossy(&log.take()).into_owned();
                let text = String::from_utf8_lossy(&out.stdout).into_owned();
                if init == 0 {
                    ensure!(!out.status.success() && text.is_empty(), "spawned without initialisation: {text}");
                    ensure!(ran.is_empty(), "without initialisation, the function was executed");
                } else {
                    ensure!(out.status.success() && text == "ok", "initialised {init} times: {text} {}", out.status);
                    ensure!(ran.lines().count() == 1, "initialised {init} times, the function was executed {} times", ran.lines().count());
                }
                Ok(String::new())
            }));
        }
    }
    // What becomes of the file of the program, its name, its directory, its environment and its
    // standard input
    v.push(Scenario::new("surroundings", 0, || {
        let file = ["kept", "renamed", "removed", "replaced"][choose(4)];
        let name = [&b"/the/path"[..], b"", b"mains", b"./mains", b"--", b"\xff/\xfe"][choose(6)];
        let name = std::ffi::OsStr::from_bytes(name);
        let dir = ["kept", "changed", "removed"][choose(3)];
        let env = ["kept", "cleared"][choose(2)];
        let stdin = ["kept", "closed"][choose(2)];
        let program = std::env::current_exe().unwrap().with_file_name("mains");
        let scratch = Scratch::new()?;
        let copy = scratch.0.join("mains");
        std::fs::hard_link(&program, &copy).or_else(|_| std::fs::copy(&program, &copy).map(|_| ())).map_err(|e| e.to_string())?;
        let out = Command::new(&copy)
            .arg0(if name == "/the/path" { copy.as_os_str() } else { name })
            .args(["surroundings", file, dir, env, stdin])
            .arg(&scratch.0)
            .stdin(Stdio::null())
            .current_dir(&scratch.0)
            .output()
            .map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        ensure!(
            text == "main ok" && out.status.code() == Some(0),
            "file {file}, name {name:?}, directory {dir}, environment {env}, standard input {stdin}: printed {text:?}, {}",
            out.status
        );
        Ok(String::new())
    }));
    // Programs whose main is wrapped
    for (program, arg, code) in [("mains", "", 0), ("mains", "code", 5), ("mains", "_crossmist_", 0), ("mains_tokio", "", 0)] {
        v.push(Scenario::new(format!("main/{program}/{arg}"), 0, move || {
            let path = std::env::current_exe().unwrap().with_file_name(program);
            let out = Command::new(path).args(Some(arg).filter(|a| !a.is_empty())).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
            let text = String::from_utf8_lossy(&out.stdout).into_owned();
            ensure!(text == "main ok", "the program printed {text:?}");
            ensure!(out.status.code() == Some(code), "the program exited with {}", out.status);
            Ok(String::new())
        }));
    }
    v
}

/// A directory next to the harness, removed with what is in it.
struct Scratch(std::path::PathBuf);

impl Scratch {
    fn new() -> Result<Scratch, String> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let path = std::env::current_exe().unwrap().with_file_name(format!("scratch-{}-{n}", std::process::id()));
        std::fs::create_dir(&path).map_err(|e| e.to_string())?;
        Ok(Scratch(path))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        for name in ["mains", "other"] {
            let _ = std::fs::remove_file(self.0.join(name));
        }
        let _ = std::fs::remove_dir(self.0.join("dir"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

fn record_for(log: &Log, id: u32, pid: u32) {
    let r = format!("{id} {pid} 0\n");
    assert_eq!(unsafe { libc::write(log.fd(), r.as_ptr() as *const _, r.len()) }, r.len() as isize);
}

/// The harness itself is the root.
fn judge_root(t: &Tree, a: &Answer, log: &Log) -> Result<(), String> {
    let text = log.take();
    for (k, (pid, ka)) in t.kids.iter().zip(&a.kids) {
        let mine: String = String::from_utf8_lossy(&text).lines().filter(|l| l.starts_with(&format!("{} ", k.id))).map(|l| format!("{l}\n")).collect();
        unsafe { libc::write(log.fd(), mine.as_ptr() as *const _, mine.len()) };
        judge(k, *pid, ka, log)?;
    }
    let n = String::from_utf8_lossy(&text).lines().count();
    ensure!(n == t.kids.len() + 1, "{} functions were executed instead of {}", n - 1, t.kids.len());
    Ok(())
}

/// Runs instead of the harness: `times:how:log`.
pub fn init_test(spec: &str) -> ! {
    let p: Vec<&str> = spec.split(':').collect();
    for _ in 0..p[0].parse::<usize>().unwrap() {
        crossmist::init();
    }
    let log: i32 = p[2].parse().unwrap();
    let t = Tree { id: 1, flavor: 0, method: 0, mode: 0, kids: vec![] };
    let a = match p[1] {
        "blocking" => node.spawn(t, log).unwrap().join(),
        "run" => node.run(t, log),
        "tokio" => tokio(async { node.spawn_tokio(t, log).await.unwrap().join().await }),
        _ => async_io::block_on(async { node.spawn_smol(t, log).await.unwrap().join().await }),
    };
    let a = a.unwrap();
    print!("{}", if a.id == 1 && a.pid != std::process::id() { "ok" } else { "wrong" });
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    std::process::exit(0)
}
