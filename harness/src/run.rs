//! The explorer's runner: enumerates the cases of a check's plans on all cores, isolates
//! panics, hangs and crashes of the code under test, applies the known-findings file,
//! writes evidence and replay files, and turns the outcome into exit code 0 or 1.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<X>(self, q: X, t: X) -> X {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub plan: usize,
    pub case: usize,
    pub key: String,
    pub text: String,
}

/// what one worker measured
#[derive(Default)]
pub struct Stats {
    /// model states visited (reference-model states, cache states, schedules' states ...)
    pub states: u64,
    /// steps of the implementation driven by the explorer
    pub transitions: u64,
    /// complete executions of the implementation compared with the model
    pub traces: u64,
    pub samples: Vec<String>,
    pub outcomes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    plan: usize,
    case: usize,
    case_viols: usize,
}
const MAX_PER_CASE: usize = 20;
impl Stats {
    pub fn fail(&mut self, key: impl Into<String>, text: impl Into<String>) {
        self.case_viols += 1;
        if self.case_viols <= MAX_PER_CASE {
            self.viols.push(Viol { plan: self.plan, case: self.case, key: key.into(), text: text.into() });
        }
    }
    pub fn failed(&self) -> bool {
        self.case_viols >= MAX_PER_CASE
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn outcome<H: Hash>(&mut self, h: &H) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(hash(h));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f())
        }
    }
    fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.viols.extend(o.viols);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
    }
}
pub fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub struct Plan {
    pub name: String,
    /// alphabet and bounds, for the evidence file
    pub bounds: String,
    pub n: usize,
    pub f: Box<dyn Fn(usize, &mut Stats) + Sync>,
}
pub fn plan(name: impl Into<String>, bounds: impl Into<String>, n: usize, f: impl Fn(usize, &mut Stats) + Sync + 'static) -> Plan {
    Plan { name: name.into(), bounds: bounds.into(), n, f: Box::new(f) }
}

// ------------------------------------------------------------------ panics ------------

thread_local! {
    static PANIC_AT: Cell<Option<String>> = Cell::new(None);
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_AT.with(|p| p.set(Some(format!("{} at {}", msg, at))));
    }));
}
/// the text of the last panic of this thread
pub fn last_panic() -> String {
    PANIC_AT.with(|p| p.take()).unwrap_or_else(|| "panic".into())
}
/// runs code under test; a panic becomes an error text
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    beat();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_AT.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
}

thread_local!(static BEAT: std::cell::RefCell<Option<(Arc<Vec<AtomicU64>>, usize, Instant)>> = Default::default());
/// a sign of progress: the code under test returned and is called again
pub fn beat() {
    BEAT.with(|b| {
        if let Some((v, k, t0)) = &*b.borrow() {
            v[*k].store(t0.elapsed().as_millis() as u64 + 1, Relaxed)
        }
    })
}

// ------------------------------------------------------------------ worker ------------

pub struct Opts {
    pub id: String,
    pub tier: Tier,
    pub only: Option<(usize, usize)>,
    pub slots: Option<String>,
    pub threads: usize,
    pub verbose: bool,
}

const SLOTS: usize = 64;
struct Slots(*mut u64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn open(path: &Option<String>) -> Slots {
        let len = SLOTS * 8;
        unsafe {
            let p = match path {
                Some(p) => {
                    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(p).unwrap();
                    f.set_len(len as u64).unwrap();
                    use std::os::fd::AsRawFd;
                    libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
                }
                None => libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0),
            };
            assert!(p != libc::MAP_FAILED);
            Slots(p as *mut u64)
        }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < SLOTS);
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
}
fn pack(plan: usize, case: usize) -> u64 {
    1 + ((plan as u64) << 40 | case as u64)
}
fn unpack(v: u64) -> Option<(usize, usize)> {
    if v == 0 {
        None
    } else {
        Some((((v - 1) >> 40) as usize, ((v - 1) & ((1 << 40) - 1)) as usize))
    }
}

pub const HANG_SECS: u64 = 25;
pub const EXIT_HANG: i32 = 77;

pub struct Result_ {
    pub stats: Stats,
    pub exhaustive: bool,
    pub done: Vec<usize>,
    pub wall: f64,
}

/// runs all plans; aborts the process with EXIT_HANG when a case shows no progress
pub fn run_plans(plans: &[Plan], o: &Opts, deadline: Duration) -> Result_ {
    let t0 = Instant::now();
    let slots = Slots::open(&o.slots);
    let total: Vec<(usize, usize)> = plans.iter().enumerate().map(|(i, p)| (i, p.n)).collect();
    let chunked: Vec<(usize, usize, usize)> = match o.only {
        Some((p, c)) => vec![(p, c, c + 1)],
        None => {
            let mut v = vec![];
            for (i, n) in &total {
                let step = (n / 4096).max(1);
                let mut k = 0;
                while k < *n {
                    v.push((*i, k, (k + step).min(*n)));
                    k += step;
                }
            }
            v
        }
    };
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let over = AtomicBool::new(false);
    let all = Mutex::new(Stats::default());
    let done: Vec<AtomicUsize> = plans.iter().map(|_| AtomicUsize::new(0)).collect();
    let beats: Arc<Vec<AtomicU64>> = Arc::new((0..o.threads).map(|_| AtomicU64::new(0)).collect());
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for th in 0..o.threads {
            let (next, stop, over, all, done, beats, slots, chunked, finished) =
                (&next, &stop, &over, &all, &done, &beats, &slots, &chunked, &finished);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    BEAT.with(|b| *b.borrow_mut() = Some((beats.clone(), th, t0)));
                    'out: loop {
                        let k = next.fetch_add(1, Relaxed);
                        let (p, a, b) = match chunked.get(k) {
                            Some(x) => *x,
                            None => break,
                        };
                        for c in a..b {
                            if stop.load(Relaxed) {
                                break 'out;
                            }
                            if t0.elapsed() > deadline {
                                over.store(true, Relaxed);
                                break 'out;
                            }
                            st.plan = p;
                            st.case = c;
                            st.case_viols = 0;
                            slots.at(th).store(pack(p, c), Relaxed);
                            beats[th].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                            if let Err(e) = guard(|| (plans[p].f)(c, &mut st)) {
                                st.fail(format!("panic:{}", e), format!("panic: {}", e));
                            }
                            beats[th].store(0, Relaxed);
                            slots.at(th).store(0, Relaxed);
                            done[p].fetch_add(1, Relaxed);
                            if st.viols.len() > 400 {
                                // enough to decide; keep what was found
                                stop.store(true, Relaxed);
                            }
                        }
                    }
                    finished.fetch_add(1, SeqCst);
                    all.lock().unwrap().merge(st);
                })
                .unwrap();
        }
        let (beats, finished) = (&beats, &finished);
        let n = o.threads;
        s.spawn(move || {
            while finished.load(SeqCst) < n {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for b in beats.iter() {
                    let x = b.load(Relaxed);
                    if x != 0 && now > x + HANG_SECS * 1000 {
                        unsafe { libc::_exit(EXIT_HANG) }
                    }
                }
            }
        });
    });
    let done: Vec<usize> = done.iter().map(|d| d.load(Relaxed)).collect();
    Result_ {
        stats: all.into_inner().unwrap(),
        exhaustive: !over.load(Relaxed) && !stop.load(Relaxed),
        done,
        wall: t0.elapsed().as_secs_f64(),
    }
}

// ------------------------------------------------------------------ JSON --------------

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c == '\u{2028}' || c == '\u{fffe}' || c == '\u{ffff}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ known findings ----

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}
/// lines of /verif/known_findings.txt:  `finding: property=<id> key=<key> :: <what fails>`
/// (lines starting with `fixed:` document repairs and suppress nothing)
pub fn known(root: &str, id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((p, r)) = r.split_once(" key=") {
                    if let Some((k, w)) = r.split_once(" :: ") {
                        if p == id {
                            v.push(Known { property: p.into(), key: k.trim().into(), what: w.into() });
                        }
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ supervisor --------

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(id: &str, tier: Tier, name: &str, plan: usize, case: usize, body: &str) -> String {
    let dir = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.txt", dir, id, plan, case);
    let s = format!(
        "property {}\nplan {} ({})\ncase {}\nreplay: /verif/check {} --tier {} --plan {} --case {}\n\n{}\n",
        id,
        plan,
        name,
        case,
        id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        plan,
        case,
        body
    );
    let _ = std::fs::write(&path, s);
    path
}

pub fn write_evidence(o: &Opts, plans: &[(String, String, usize)], r: &Result_, viols: usize, knowns: &[String]) {
    let st = &r.stats;
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut s = String::new();
    s += "{\n";
    s += &format!(" \"property\": {},\n", jstr(&o.id));
    s += &format!(" \"tier\": \"{}\",\n", if o.tier == Tier::Quick { "quick" } else { "thorough" });
    s += &format!(" \"seed\": {},\n \"level\": \"model_checking\",\n", seed);
    s += " \"coverage\": {\n";
    s += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", st.states, st.transitions, st.traces);
    s += &format!("  \"distinct_outcomes\": {},\n", st.outcomes.len());
    s += &format!("  \"exhaustive\": {},\n", r.exhaustive);
    s += "  \"plans\": [";
    for (i, (n, b, c)) in plans.iter().enumerate() {
        s += &format!(
            "{}\n   {{\"name\": {}, \"bounds\": {}, \"cases\": {}, \"cases_completed\": {}}}",
            if i > 0 { "," } else { "" },
            jstr(n),
            jstr(b),
            c,
            r.done.get(i).copied().unwrap_or(0)
        );
    }
    s += "\n  ],\n  \"counters\": {";
    for (i, (k, v)) in st.counters.iter().enumerate() {
        s += &format!("{}{}: {}", if i > 0 { ", " } else { "" }, jstr(k), v);
    }
    s += "},\n  \"known_findings_seen\": [";
    for (i, k) in knowns.iter().enumerate() {
        s += &format!("{}{}", if i > 0 { ", " } else { "" }, jstr(k));
    }
    s += "],\n  \"samples\": [";
    for (i, x) in st.samples.iter().enumerate() {
        s += &format!("{}\n   {}", if i > 0 { "," } else { "" }, jstr(x));
    }
    s += "\n  ]\n },\n";
    s += " \"assumptions\": [\"values outside the stated alphabets and bounds are not explored\", \"the enumerated grammars are compiled to the ATN layout the ANTLR 4.8 tool emits and executed with the calls generated code makes\"],\n";
    s += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", r.wall, viols);
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, o.id), s);
}

/// child process: does the exploration; exit 0 / 1 are verdicts
pub fn child(o: &Opts, plans: Vec<Plan>) -> i32 {
    silence_panics();
    let deadline = Duration::from_secs(
        std::env::var("VERIF_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(o.tier.pick(600, 3 * 3600)),
    );
    let mut r = run_plans(&plans, o, deadline);
    let kn = known(&root(), &o.id);
    r.stats.viols.sort_by(|a, b| (a.plan, a.case).cmp(&(b.plan, b.case)));
    let mut seen_known = vec![];
    let mut fresh: Vec<&Viol> = vec![];
    for v in &r.stats.viols {
        match kn.iter().find(|k| k.key == v.key) {
            Some(k) => {
                if !seen_known.contains(&k.what) {
                    seen_known.push(k.what.clone())
                }
            }
            None => fresh.push(v),
        }
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={} {}", o.id, k);
    }
    let meta: Vec<(String, String, usize)> = plans.iter().map(|p| (p.name.clone(), p.bounds.clone(), p.n)).collect();
    if o.only.is_none() {
        write_evidence(o, &meta, &r, fresh.len(), &seen_known);
    }
    println!(
        "{}: {} states, {} transitions, {} traces, {} distinct outcomes, {} violations, {:.1}s{}",
        o.id,
        r.stats.states,
        r.stats.transitions,
        r.stats.traces,
        r.stats.outcomes.len(),
        fresh.len(),
        r.wall,
        if r.exhaustive { "" } else { " (not exhaustive)" }
    );
    if o.verbose {
        for (i, p) in plans.iter().enumerate() {
            println!("  plan {} {}: {}/{}", i, p.name, r.done[i], p.n);
        }
        println!("  {:?}", r.stats.counters);
        for s in &r.stats.samples {
            println!("  sample {}", s);
        }
    }
    if fresh.is_empty() {
        return 0;
    }
    let v = fresh[0];
    let mut body = String::new();
    for v in fresh.iter().take(10) {
        body += &format!("[plan {} case {}] key={}\n{}\n\n", v.plan, v.case, v.key, v.text);
    }
    let path = write_replay(&o.id, o.tier, &plans[v.plan].name, v.plan, v.case, &body);
    for v in fresh.iter().take(if o.verbose { 3 } else { 1 }) {
        println!("--- plan {} case {} key={}\n{}", plans[v.plan].name, v.case, v.key, v.text);
    }
    println!("VIOLATION property={} replay={}", o.id, path);
    1
}

/// parent process: runs the child, and turns a crash or hang of the code under test that
/// reproduces on its own into a violation
pub fn supervise(args: &[String], id: &str, tier: Tier) -> i32 {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let slots = format!("{}/.slots-{}", dir, id);
    let _ = std::fs::remove_file(&slots);
    let exe = std::env::current_exe().unwrap();
    let spawn = |extra: &[String], limit: Option<Duration>| -> Option<std::process::ExitStatus> {
        let mut c = std::process::Command::new(&exe);
        c.arg("child").args(args).args(extra);
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                Ok(())
            });
        }
        let mut ch = c.spawn().expect("cannot start the explorer");
        let t0 = Instant::now();
        loop {
            if let Some(s) = ch.try_wait().unwrap() {
                return Some(s);
            }
            if let Some(l) = limit {
                if t0.elapsed() > l {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return None;
                }
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    };
    let mut st = spawn(&["--slots".into(), slots.clone()], None).unwrap();
    let mut again = false;
    let code = loop {
        let code = match st.code() {
        Some(c @ (0 | 1)) => c,
        _ => {
            let bytes = std::fs::read(&slots).unwrap_or_default();
            let mut cand: Vec<(usize, usize)> = bytes
                .chunks_exact(8)
                .filter_map(|b| unpack(u64::from_ne_bytes(b.try_into().unwrap())))
                .collect();
            cand.sort();
            eprintln!("explorer ended with {:?}; re-running {} running cases alone", st, cand.len());
            let mut res = 2;
            for (p, c) in cand {
                let s = spawn(
                    &["--plan".into(), p.to_string(), "--case".into(), c.to_string()],
                    Some(Duration::from_secs(HANG_SECS + 275)),
                );
                let what = match s {
                    None => "does not terminate".to_string(),
                    Some(s) if s.code() == Some(0) => continue,
                    Some(s) if s.code() == Some(1) => {
                        res = 1;
                        break;
                    }
                    Some(s) if s.code() == Some(EXIT_HANG) => "does not terminate".to_string(),
                    Some(s) => format!("crashes the process ({:?})", s),
                };
                let path = write_replay(id, tier, "crash", p, c, &format!("this case {} when run alone", what));
                println!("VIOLATION property={} replay={}", id, path);
                let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                let _ = std::fs::write(
                    format!("{}/{}.json", dir, id),
                    format!(
                        "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
                        jstr(id), if tier == Tier::Quick { "quick" } else { "thorough" }, seed,
                        jstr(&format!("plan {} case {} {}", p, c, what))
                    ),
                );
                res = 1;
                break;
            }
            res
        }
    };
        if code != 2 || again {
            break code;
        }
        // slow rather than stuck: once more, less at a time
        again = true;
        st = spawn(&["--slots".into(), slots.clone(), "--threads".into(), "3".into()], None).unwrap();
    };
    let _ = std::fs::remove_file(&slots);
    code
}

/// the command line: supervises a child process that runs the plans
pub fn main(plans: fn(&str, Tier) -> Option<Vec<Plan>>, mut a: Vec<String>) {
    let child = a.first().map(|s| s == "child").unwrap_or(false);
    if child {
        a.remove(0);
    }
    let args = a.clone();
    let mut o = Opts { id: String::new(), tier: Tier::Quick, only: None, slots: None, threads: 8, verbose: false };
    let (mut p, mut c) = (None, None);
    let mut it = a.into_iter();
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => {
                o.tier = match it.next().as_deref() {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--plan" => p = it.next().and_then(|s| s.parse().ok()),
            "--case" => c = it.next().and_then(|s| s.parse().ok()),
            "--slots" => o.slots = it.next(),
            "--threads" => o.threads = it.next().and_then(|s| s.parse().ok()).unwrap_or(8),
            "-v" => o.verbose = true,
            s => o.id = s.to_string(),
        }
    }
    if let (Some(p), Some(c)) = (p, c) {
        o.only = Some((p, c));
        o.threads = 1;
        o.verbose = true;
    }
    if !child {
        std::process::exit(supervise(&args, &o.id, o.tier));
    }
    let id = o.id.clone();
    let tier = o.tier;
    match guard(|| plans(&id, tier)) {
        Ok(Some(ps)) => std::process::exit(crate::run::child(&o, ps)),
        Ok(None) => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
        Err(e) => {
            eprintln!("cannot build the plans: {}", e);
            std::process::exit(2)
        }
    }
}
