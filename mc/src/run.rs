//! Running scenarios: a supervisor hands them to worker processes, watches for crashes and hangs,
//! confirms every violation by replaying it in a fresh process, and writes a report.
use crate::explore::{next_prefix, run_one, Slot, Stats, SLOT};
use crate::util::esc;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A description of what happened, or of the violation.
pub type Verdict = Result<String, String>;

pub struct Scenario {
    pub name: String,
    /// Deviations (preemptions, injected answers) allowed per execution.
    pub budget: u32,
    pub body: Box<dyn Fn() -> Verdict>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, budget: u32, body: impl Fn() -> Verdict + 'static) -> Self {
        Scenario { name: name.into(), budget, body: Box::new(body) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Registry = fn(&str, Tier) -> Vec<Scenario>;

const VIOLATION_EXIT: i32 = 77;
const HANG: Duration = Duration::from_secs(15);
const HANG_REPLAY: Duration = Duration::from_secs(40);
/// Stands for the executions of a scenario one after the other, where one alone does not fail.
const WHOLE: &str = "whole";
const HANG_WHOLE: Duration = Duration::from_secs(300);

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    slots: [Slot; MAX_JOBS],
}
const MAX_JOBS: usize = 16;

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "(no message)".into())
}

static RESULT: Mutex<Option<PathBuf>> = Mutex::new(None);

fn write_result(line: &str) {
    let g = RESULT.lock().unwrap_or_else(|e| e.into_inner());
    match &*g {
        Some(p) => {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
            f.write_all(format!("{line}\n").as_bytes()).unwrap();
        }
        None => println!("{line}"),
    }
}

/// The machinery itself failed.
pub fn die(msg: &str) -> ! {
    crate::sys::uncontrolled(|| {
        eprintln!("mc: {msg}");
        write_result(&format!("error\t{}", msg.replace(['\t', '\n'], " ")));
        unsafe { libc::_exit(78) }
    })
}

/// Report a violation of the current execution from which it cannot return.
pub fn violation_exit(msg: &str) -> ! {
    crate::sys::uncontrolled(|| {
        write_result(&format!("viol\t{}", msg.replace(['\t', '\n'], " ")));
        unsafe { libc::_exit(VIOLATION_EXIT) }
    })
}

fn execute(s: &Scenario, prefix: &[u32]) -> (Vec<(u32, u32)>, Verdict) {
    crate::sys::reset();
    let (trace, r) = run_one(prefix, s.budget, || {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.body)())) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", panic_text(&p))),
        }
    });
    let r = match crate::sys::observed() {
        Some(o) => Err(o),
        None => r,
    };
    crate::sys::clear_policy();
    crate::sys::clear_plan();
    (trace, r)
}

fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn known_findings(path: Option<&str>, prop: &str) -> Vec<(String, String)> {
    // "known: property=C01 scenario=<exact name> message=<substring>"
    let mut v = Vec::new();
    if let Some(t) = path.and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={prop} scenario=")) {
                if let Some((s, m)) = rest.split_once(" message=") {
                    v.push((s.to_string(), m.trim().to_string()));
                }
            }
        }
    }
    v
}

fn explore(idx: usize, s: &Scenario, shared: &Shared, slot: &Slot, known: &[(String, String)]) {
    slot.scenario.store(idx as u64 + 1, SeqCst);
    let mut st = Stats::default();
    let mut prefix: Vec<u32> = Vec::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known_hit = String::new();
    let mut nontrivial = 0u64;
    loop {
        let (trace, r) = execute(s, &prefix);
        st.executions += 1;
        st.steps += trace.len() as u64 + crate::sys::take_steps();
        st.nodes += (trace.len() + 1 - prefix.len().saturating_sub(1).min(trace.len())) as u64;
        st.max_depth = st.max_depth.max(trace.len() as u64);
        let out = match r {
            Ok(o) => o,
            Err(m) => {
                if known.iter().any(|(n, k)| *n == s.name && m.contains(k.as_str())) {
                    known_hit = m.clone();
                    format!("known finding: {m}")
                } else {
                    violation_exit(&m);
                }
            }
        };
        if !out.starts_with('~') {
            nontrivial += 1;
        }
        if outcomes.insert(hash(&out)) && samples.len() < 3 {
            let t: Vec<String> = trace.iter().map(|c| c.0.to_string()).collect();
            samples.push(format!("{}\u{1}{}", t.join(","), out.replace(['\t', '\n'], " ")));
        }
        match next_prefix(&trace) {
            None => {
                st.complete = true;
                break;
            }
            Some(p) => prefix = p,
        }
        if shared.stop.load(SeqCst) != 0 {
            break;
        }
    }
    write_result(&format!(
        "done\t{idx}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
        st.executions,
        st.nodes,
        st.steps,
        st.max_depth,
        st.complete as u8,
        outcomes.len(),
        nontrivial,
        known_hit.replace(['\t', '\n'], " "),
        samples.join("\u{2}"),
    ));
    slot.scenario.store(0, SeqCst);
}

fn map_shared(path: &Path, create: bool) -> &'static Shared {
    let size = std::mem::size_of::<Shared>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).unwrap();
    if create {
        f.set_len(size as u64).unwrap();
    }
    use std::os::fd::AsRawFd;
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { &*(p as *const Shared) }
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, name: &str) -> Option<&str> {
        self.0.iter().position(|a| a == name).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
}

fn quiet_panics() {
    // Panics of the code under test are caught and reported; child processes print theirs to a null stderr
    if std::env::var("MC_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn main(registry: Registry) {
    let args = Args(std::env::args().collect());
    let prop = args.get("--prop").expect("--prop").to_string();
    let tier = match args.get("--tier") {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut scenarios = registry(&prop, tier);
    if let Some(f) = args.get("--filter") {
        scenarios.retain(|s| s.name.contains(f));
    }
    let known = known_findings(args.get("--known"), &prop);

    if let Some(file) = args.get("--worker") {
        let i: usize = args.get("--index").unwrap().parse().unwrap();
        crate::sys::init();
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        quiet_panics();
        let shared = map_shared(Path::new(file), false);
        let slot = &shared.slots[i];
        SLOT.store(slot as *const Slot as *mut Slot, SeqCst);
        *RESULT.lock().unwrap() = Some(PathBuf::from(args.get("--result").unwrap()));
        if let Some(idx) = args.get("--redo") {
            let idx: usize = idx.parse().unwrap();
            explore(idx, &scenarios[idx], shared, slot, &known);
        }
        while shared.stop.load(SeqCst) == 0 {
            let idx = shared.next.fetch_add(1, SeqCst) as usize;
            if idx >= scenarios.len() {
                break;
            }
            explore(idx, &scenarios[idx], shared, slot, &known);
        }
        crate::sys::reap_all();
        std::process::exit(0);
    }

    if let Some(name) = args.get("--one") {
        // Execute one trace in this process
        crate::sys::init();
        quiet_panics();
        *RESULT.lock().unwrap() = args.get("--result").map(PathBuf::from);
        let prefix = parse_trace(args.get("--trace").unwrap_or(""));
        let Some(s) = scenarios.iter().find(|s| s.name == name) else { die("no such scenario") };
        let (_, r) = execute(s, &prefix);
        match r {
            Ok(o) => {
                write_result(&format!("ok\t{o}"));
                std::process::exit(0)
            }
            Err(m) => violation_exit(&m),
        }
    }

    if let Some(name) = args.get("--all") {
        // Execute all traces of a scenario in this process
        crate::sys::init();
        quiet_panics();
        *RESULT.lock().unwrap() = args.get("--result").map(PathBuf::from);
        let Some(s) = scenarios.iter().find(|s| s.name == name) else { die("no such scenario") };
        let mut prefix = Vec::new();
        loop {
            let (trace, r) = execute(s, &prefix);
            if let Err(m) = r {
                if !known.iter().any(|(n, k)| *n == s.name && m.contains(k.as_str())) {
                    violation_exit(&format!("(only after the executions before it) {m}"));
                }
            }
            match next_prefix(&trace) {
                None => break,
                Some(p) => prefix = p,
            }
        }
        write_result("ok\t");
        std::process::exit(0)
    }

    if let Some(file) = args.get("--replay") {
        let t = std::fs::read_to_string(file).expect("replay file");
        let mut name = String::new();
        let mut trace = String::new();
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("scenario: ") {
                name = x.to_string();
            }
            if let Some(x) = l.strip_prefix("trace: ") {
                trace = x.to_string();
            }
        }
        let s = Supervisor::new(&args, &prop);
        match s.replay(&name, &trace) {
            Some(m) => {
                println!("VIOLATION property={prop} replay={file}\n{m}");
                std::process::exit(1)
            }
            None => println!("not reproduced"),
        }
        return;
    }

    if args.0.iter().any(|a| a == "--list") {
        for s in &scenarios {
            println!("{}", s.name);
        }
        return;
    }

    let mut s = Supervisor::new(&args, &prop);
    let code = s.run(&scenarios, tier, &args);
    drop(s);
    std::process::exit(code);
}

fn parse_trace(t: &str) -> Vec<u32> {
    t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

struct Supervisor {
    dir: PathBuf,
    base: Vec<String>,
    counter: std::cell::Cell<u32>,
    prop: String,
}

impl Drop for Supervisor {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

struct Worker {
    child: Child,
    result: PathBuf,
    last: (u64, u64, u64),
    since: Instant,
}

impl Supervisor {
    fn new(args: &Args, prop: &str) -> Self {
        let dir = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let mut base = Vec::new();
        for a in ["--prop", "--tier", "--known", "--filter"] {
            if let Some(v) = args.get(a) {
                base.push(a.to_string());
                base.push(v.to_string());
            }
        }
        Supervisor { dir, base, counter: std::cell::Cell::new(0), prop: prop.to_string() }
    }

    fn command(&self) -> (Command, PathBuf) {
        let n = self.counter.get();
        self.counter.set(n + 1);
        let result = self.dir.join(format!("r{n}"));
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(&self.base).arg("--result").arg(&result).stdin(Stdio::null()).process_group(0);
        if std::env::var("MC_LOUD").is_err() {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        (c, result)
    }

    /// Run one trace in a fresh process. Some(message) if the property is violated.
    fn replay(&self, name: &str, trace: &str) -> Option<String> {
        let (mut c, result) = self.command();
        if trace == WHOLE {
            c.arg("--all").arg(name);
            return self.judge(c, result, name, HANG_WHOLE);
        }
        c.arg("--one").arg(name).arg("--trace").arg(trace);
        self.judge(c, result, name, HANG_REPLAY)
    }

    fn judge(&self, mut c: Command, result: PathBuf, name: &str, limit: Duration) -> Option<String> {
        let mut child = c.spawn().unwrap();
        let start = Instant::now();
        loop {
            if let Some(st) = child.try_wait().unwrap() {
                kill_group(child.id());
                let msg = std::fs::read_to_string(&result).unwrap_or_default();
                let last = msg.lines().last().unwrap_or("");
                if st.code() == Some(VIOLATION_EXIT) {
                    return Some(last.strip_prefix("viol\t").unwrap_or(last).to_string());
                }
                if let Some(sig) = st.signal() {
                    return Some(format!("the process crashed with signal {sig}"));
                }
                if st.code() == Some(0) && last.starts_with("ok\t") {
                    return None;
                }
                if st.code() == Some(78) {
                    eprintln!("mc: replay of {name}: {last}");
                    return None;
                }
                return Some(format!("the process exited unexpectedly with status {:?}", st.code()));
            }
            if start.elapsed() > limit {
                kill_group(child.id());
                let _ = child.wait();
                return Some("an operation never finished".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    fn start(&self, shared_path: &Path, i: usize, redo: Option<usize>) -> Worker {
        let (mut c, result) = self.command();
        c.arg("--worker").arg(shared_path).arg("--index").arg(i.to_string());
        if let Some(r) = redo {
            c.arg("--redo").arg(r.to_string());
        }
        Worker { child: c.spawn().unwrap(), result, last: (0, 0, 0), since: Instant::now() }
    }

    fn run(&mut self, scenarios: &[Scenario], tier: Tier, args: &Args) -> i32 {
        assert!(!scenarios.is_empty(), "no scenarios");
        {
            let mut seen = HashSet::new();
            for s in scenarios {
                assert!(seen.insert(&s.name), "duplicate scenario {}", s.name);
            }
        }
        let t0 = Instant::now();
        let deadline = Duration::from_secs(
            std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 200 } else { 700 }),
        );
        let jobs = args.get("--jobs").map(|j| j.parse().unwrap()).unwrap_or(8usize).min(MAX_JOBS).min(scenarios.len());
        let shared_path = self.dir.join("shared");
        let shared = map_shared(&shared_path, true);
        let mut workers: Vec<Option<Worker>> = (0..jobs).map(|i| Some(self.start(&shared_path, i, None))).collect();
        let mut redone: Vec<u32> = vec![0; scenarios.len()];
        let mut results: Vec<PathBuf> = Vec::new();
        let mut violations: Vec<(String, String, String)> = Vec::new();
        let mut unconfirmed: Vec<String> = Vec::new();
        let mut errors: Vec<String> = Vec::new();
        while workers.iter().any(|w| w.is_some()) {
            std::thread::sleep(Duration::from_millis(10));
            if t0.elapsed() > deadline {
                shared.stop.store(1, SeqCst);
            }
            for i in 0..jobs {
                let Some(w) = workers[i].as_mut() else { continue };
                let slot = &shared.slots[i];
                let mut failure: Option<String> = None;
                if let Some(st) = w.child.try_wait().unwrap() {
                    kill_group(w.child.id());
                    if st.code() == Some(0) {
                        results.push(w.result.clone());
                        workers[i] = None;
                        continue;
                    }
                    let text = std::fs::read_to_string(&w.result).unwrap_or_default();
                    let last = text.lines().last().unwrap_or("").to_string();
                    failure = Some(if st.code() == Some(VIOLATION_EXIT) {
                        last.strip_prefix("viol\t").unwrap_or(&last).to_string()
                    } else if let Some(sig) = st.signal() {
                        format!("the process crashed with signal {sig}")
                    } else {
                        errors.push(format!("worker exited with {:?}: {last}", st.code()));
                        "the worker failed".into()
                    });
                } else {
                    let now = (slot.scenario.load(SeqCst), slot.executions.load(SeqCst), slot.len.load(SeqCst) as u64);
                    if now != w.last {
                        w.last = now;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > HANG {
                        kill_group(w.child.id());
                        let _ = w.child.wait();
                        failure = Some("an operation never finished".into());
                    }
                }
                let Some(msg) = failure else { continue };
                let idx = slot.scenario.load(SeqCst);
                results.push(w.result.clone());
                let restart = if idx == 0 {
                    errors.push(format!("worker failed outside of a scenario: {msg}"));
                    None
                } else {
                    let idx = idx as usize - 1;
                    let n = slot.len.load(SeqCst) as usize;
                    let trace: Vec<String> =
                        slot.trace[..n.min(slot.trace.len())].iter().map(|c| c.load(SeqCst).to_string()).collect();
                    let trace = trace.join(",");
                    let mut confirmed = None;
                    if violations.is_empty() {
                        for _ in 0..5 {
                            confirmed = self.replay(&scenarios[idx].name, &trace);
                            if confirmed.is_some() {
                                break;
                            }
                        }
                    }
                    let mut trace = trace;
                    if confirmed.is_none() && violations.is_empty() && redone[idx] >= 2 {
                        // Three times now: does it depend on the executions before?
                        confirmed = self.replay(&scenarios[idx].name, WHOLE);
                        trace = WHOLE.into();
                    }
                    match confirmed {
                        Some(m) => {
                            violations.push((scenarios[idx].name.clone(), trace, m));
                            shared.stop.store(1, SeqCst);
                            None
                        }
                        None => {
                            if violations.is_empty() {
                                unconfirmed.push(format!("{} [{}]: {}", scenarios[idx].name, trace, msg));
                            }
                            redone[idx] += 1;
                            if redone[idx] <= 2 { Some(idx) } else { None }
                        }
                    }
                };
                slot.scenario.store(0, SeqCst);
                if shared.stop.load(SeqCst) != 0 || errors.len() > 8 {
                    workers[i] = None;
                } else {
                    workers[i] = Some(self.start(&shared_path, i, restart));
                }
            }
        }
        // Collect
        let mut done: Vec<Option<Vec<String>>> = vec![None; scenarios.len()];
        for r in &results {
            for l in std::fs::read_to_string(r).unwrap_or_default().lines() {
                let f: Vec<String> = l.split('\t').map(|s| s.to_string()).collect();
                if f[0] == "done" {
                    let i: usize = f[1].parse().unwrap();
                    done[i] = Some(f);
                } else if f[0] == "error" {
                    errors.push(l.to_string());
                }
            }
        }
        let (mut ex, mut nodes, mut steps, mut depth, mut complete, mut distinct, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
        let mut samples = Vec::new();
        let mut known_hits = Vec::new();
        let mut per = Vec::new();
        for (s, d) in scenarios.iter().zip(&done) {
            let Some(d) = d else { continue };
            let n = |i: usize| d[i].parse::<u64>().unwrap();
            ex += n(2);
            nodes += n(3);
            steps += n(4);
            depth = depth.max(n(5));
            complete += n(6);
            distinct += n(7);
            nontrivial += n(8);
            if !d[9].is_empty() {
                known_hits.push((s.name.clone(), d[9].clone()));
            }
            per.push(format!("{{\"scenario\":{},\"executions\":{},\"complete\":{}}}", esc(&s.name), d[2], d[6] == "1"));
            for smp in d[10].split('\u{2}').take(1) {
                if let Some((t, o)) = smp.split_once('\u{1}') {
                    samples.push((s.name.clone(), t.to_string(), o.to_string()));
                }
            }
        }
        let step = (samples.len() / 12).max(1);
        let samples: Vec<String> = samples
            .iter()
            .step_by(step)
            .map(|(n, t, o)| format!("{{\"scenario\":{},\"choices\":{},\"outcome\":{}}}", esc(n), esc(t), esc(o)))
            .collect();
        let all = complete as usize == scenarios.len();
        let json = format!(
            "{{\"scenarios\":{},\"complete_scenarios\":{complete},\"exhaustive\":{all},\"executions\":{ex},\"nodes\":{nodes},\"steps\":{steps},\"max_depth\":{depth},\"distinct_outcomes\":{distinct},\"nontrivial\":{nontrivial},\"samples\":[{}],\"unconfirmed\":[{}],\"errors\":[{}],\"violations\":[{}],\"known\":[{}],\"per_scenario\":[{}],\"wall_s\":{:.2}}}\n",
            scenarios.len(),
            samples.join(","),
            unconfirmed.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            violations
                .iter()
                .map(|(s, t, m)| format!("{{\"scenario\":{},\"trace\":{},\"message\":{}}}", esc(s), esc(t), esc(m)))
                .collect::<Vec<_>>()
                .join(","),
            known_hits.iter().map(|(s, m)| format!("{{\"scenario\":{},\"message\":{}}}", esc(s), esc(m))).collect::<Vec<_>>().join(","),
            if per.len() <= 400 { per.join(",") } else { String::new() },
            t0.elapsed().as_secs_f64(),
        );
        match args.get("--out") {
            Some(o) => std::fs::write(o, &json).unwrap(),
            None => print!("{json}"),
        }
        println!(
            "{}: {} scenarios ({complete} complete), {ex} executions, {nodes} nodes, {steps} steps, {distinct} distinct outcomes, {:.1}s",
            self.prop,
            scenarios.len(),
            t0.elapsed().as_secs_f64()
        );
        for u in &unconfirmed {
            println!("unconfirmed: {u}");
        }
        for e in &errors {
            println!("error: {e}");
        }
        if let Some((s, t, m)) = violations.first() {
            println!("violated in {s} [{t}]: {m}");
            return 1;
        }
        if !errors.is_empty() {
            return 2;
        }
        0
    }
}

fn kill_group(pid: u32) {
    crate::sys::raw(libc::SYS_kill, [(-(pid as isize)) as usize, libc::SIGKILL as usize, 0, 0, 0, 0]);
}
