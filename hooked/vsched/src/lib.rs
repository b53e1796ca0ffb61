//! A controlled scheduler: the threads of one execution run one at a time and hand over only
//! at scheduling points (lock operations). `explore` enumerates every schedule with at most
//! `bound` preemptions by depth-first search over the choices made at those points.
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

/// state of a modelled reader-writer lock with upgradable readers (as parking_lot's: a writer
/// or an upgrade first takes the writer bit, which stops new readers, then waits for readers)
#[derive(Debug)]
pub struct LockState {
    pub readers: AtomicIsize,
    pub upgradable: AtomicBool,
    pub writer: AtomicBool,
}
impl LockState {
    pub const fn new() -> LockState {
        LockState { readers: AtomicIsize::new(0), upgradable: AtomicBool::new(false), writer: AtomicBool::new(false) }
    }
    pub fn can_read(&self) -> bool {
        !self.writer.load(SeqCst)
    }
    pub fn can_claim(&self) -> bool {
        !self.writer.load(SeqCst) && !self.upgradable.load(SeqCst)
    }
    pub fn drained(&self) -> bool {
        self.readers.load(SeqCst) == 0
    }
}

/// what a thread is about to do
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Go,
    Read(*const LockState),
    Claim(*const LockState),
    Drain(*const LockState),
    Flag(*const AtomicBool),
    Spin(u64),
}
unsafe impl Send for Op {}
impl Op {
    fn enabled(&self, progress: u64) -> bool {
        unsafe {
            match self {
                Op::Go => true,
                Op::Read(l) => (**l).can_read(),
                Op::Claim(l) => (**l).can_claim(),
                Op::Drain(l) => (**l).drained(),
                Op::Flag(f) => !(**f).load(SeqCst),
                Op::Spin(n) => progress > *n,
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Choice {
    /// candidates, the default first
    pub cands: Vec<usize>,
    pub taken: usize,
    pub preempts: bool,
}

struct St {
    cur: Option<usize>,
    ops: Vec<Option<Op>>,
    trace: Vec<Choice>,
    prefix: Vec<usize>,
    used: usize,
    bound: usize,
    progress: u64,
    points: u64,
    abort: Option<String>,
    max_points: u64,
    diverged: bool,
}
pub struct Exec {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
}
pub struct Abort;

type Task = Box<dyn FnOnce() + Send + 'static>;
thread_local! {
    static POOL: RefCell<Vec<std::sync::mpsc::Sender<Task>>> = RefCell::new(vec![]);
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = RefCell::new(None);
    static FINE: RefCell<bool> = RefCell::new(false);
}

impl Exec {
    fn pick(&self, st: &mut St, me: Option<usize>) {
        let en: Vec<usize> = (0..st.ops.len()).filter(|i| st.ops[*i].as_ref().map_or(false, |o| o.enabled(st.progress))).collect();
        if en.is_empty() {
            if st.ops.iter().all(|o| o.is_none()) {
                st.cur = None;
            } else if st.abort.is_none() {
                let w: Vec<String> = st.ops.iter().enumerate().filter_map(|(i, o)| o.as_ref().map(|o| format!("thread {} waits at {}", i, name(o)))).collect();
                st.abort = Some(format!("deadlock: {}", w.join(", ")));
            }
            return;
        }
        let mut cands;
        let mut preempts = false;
        match me {
            Some(m) if en.contains(&m) => {
                cands = vec![m];
                if st.used < st.bound {
                    cands.extend(en.iter().copied().filter(|x| *x != m));
                }
                preempts = true;
            }
            _ => {
                cands = vec![];
                cands.extend(en.iter().copied());
            }
        }
        let mut i = 0;
        if cands.len() > 1 {
            let k = st.trace.len();
            if k < st.prefix.len() {
                i = st.prefix[k];
                if i >= cands.len() {
                    st.diverged = true;
                    i = 0;
                }
            }
            st.trace.push(Choice { cands: cands.clone(), taken: i, preempts });
            if preempts && i > 0 {
                st.used += 1;
            }
        }
        let next = cands[i];
        if !matches!(st.ops[next], Some(Op::Spin(_))) {
            st.progress += 1;
        }
        st.cur = Some(next);
    }
    fn at(&self, me: usize, op: Op) {
        let mut st = self.st.lock().unwrap();
        if st.abort.is_some() {
            drop(st);
            return quit();
        }
        st.points += 1;
        if st.points > st.max_points {
            st.abort = Some(format!("no end after {} lock operations", st.max_points));
            self.wake_all();
            drop(st);
            return quit();
        }
        st.ops[me] = Some(op);
        self.pick(&mut st, Some(me));
        if st.abort.is_some() {
            self.wake_all();
            drop(st);
            return quit();
        }
        if st.cur != Some(me) {
            if let Some(n) = st.cur {
                self.cvs[n].notify_one();
            }
            while st.cur != Some(me) && st.abort.is_none() {
                st = self.cvs[me].wait(st).unwrap();
            }
        }
        if st.abort.is_some() {
            drop(st);
            return quit();
        }
    }
    fn wake_all(&self) {
        for c in &self.cvs {
            c.notify_all();
        }
    }
}
fn quit() {
    if !std::thread::panicking() {
        resume_unwind(Box::new(Abort));
    }
}
fn name(o: &Op) -> &'static str {
    match o {
        Op::Go => "a step",
        Op::Read(_) => "a read lock",
        Op::Claim(_) => "an upgradable or write lock",
        Op::Drain(_) => "an upgrade or write lock until readers leave",
        Op::Flag(_) => "an initialisation",
        Op::Spin(_) => "a standard lock",
    }
}

/// a scheduling point; returns when this thread was chosen and `op` is possible
pub fn point(op: Op) {
    let c = CTX.with(|c| c.borrow().clone());
    match c {
        Some((e, me)) => e.at(me, op),
        None => {
            let t = std::time::Instant::now();
            let mut n = 0u64;
            while !op.enabled(u64::MAX) {
                n += 1;
                if n > 1000 && t.elapsed().as_secs() > 5 {
                    panic!("thread alone waits at {}", name(&op));
                }
                std::thread::yield_now();
            }
        }
    }
}
/// a scheduling point at a release, when those are wanted
pub fn release_point() {
    if !std::thread::panicking() && FINE.with(|f| *f.borrow()) {
        point(Op::Go)
    }
}
/// the hook for locks that cannot be modelled: `blocked` when the lock is not free
pub fn std_hook(blocked: bool) {
    let c = CTX.with(|c| c.borrow().clone());
    match c {
        Some((e, me)) => {
            let op = if blocked {
                let p = e.st.lock().unwrap().progress;
                Op::Spin(p)
            } else {
                Op::Go
            };
            e.at(me, op)
        }
        None => {
            if blocked {
                std::thread::yield_now()
            }
        }
    }
}

pub struct Run<R> {
    pub results: Vec<Result<R, String>>,
    pub abort: Option<String>,
    pub trace: Vec<Choice>,
    pub points: u64,
    pub diverged: bool,
}

/// one execution of `fs` under the schedule given by `prefix`, default choices after it
pub fn run<R: Send>(fs: Vec<Box<dyn FnOnce() -> R + Send + '_>>, prefix: &[usize], bound: usize, fine: bool, err: &(dyn Fn() -> String + Sync)) -> Run<R> {
    let n = fs.len();
    let ex = Arc::new(Exec {
        st: Mutex::new(St {
            cur: None,
            ops: vec![Some(Op::Go); n],
            trace: vec![],
            prefix: prefix.to_vec(),
            used: 0,
            bound,
            progress: 0,
            points: 0,
            abort: None,
            max_points: 20_000,
            diverged: false,
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
    });
    {
        let mut st = ex.st.lock().unwrap();
        ex.pick(&mut st, None);
    }
    // the jobs borrow from the caller; this function does not return before all have ended
    let slots: Vec<Mutex<Option<Result<R, String>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let left = Arc::new((Mutex::new(n), Condvar::new()));
    POOL.with(|pool| {
        let mut pool = pool.borrow_mut();
        while pool.len() < n {
            let (tx, rx) = std::sync::mpsc::channel::<Task>();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    while let Ok(t) = rx.recv() {
                        t()
                    }
                })
                .unwrap();
            pool.push(tx);
        }
        for (me, f) in fs.into_iter().enumerate() {
            let ex = ex.clone();
            let (slot, left) = (&slots[me], left.clone());
            let task: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                CTX.with(|c| *c.borrow_mut() = Some((ex.clone(), me)));
                FINE.with(|c| *c.borrow_mut() = fine);
                {
                    let mut st = ex.st.lock().unwrap();
                    while st.cur != Some(me) && st.abort.is_none() {
                        st = ex.cvs[me].wait(st).unwrap();
                    }
                }
                let r = match catch_unwind(AssertUnwindSafe(f)) {
                    Ok(x) => Ok(x),
                    Err(p) => Err(if p.is::<Abort>() { "stopped".to_string() } else { err() }),
                };
                CTX.with(|c| *c.borrow_mut() = None);
                {
                    let mut st = ex.st.lock().unwrap();
                    st.ops[me] = None;
                    if st.abort.is_none() {
                        st.progress += 1;
                        ex.pick(&mut st, None);
                        if st.abort.is_some() {
                            ex.wake_all();
                        } else if let Some(n) = st.cur {
                            ex.cvs[n].notify_one();
                        }
                    }
                }
                *slot.lock().unwrap() = Some(r);
                let mut l = left.0.lock().unwrap();
                *l -= 1;
                if *l == 0 {
                    left.1.notify_one();
                }
            });
            let task: Task = unsafe { std::mem::transmute(task) };
            pool[me].send(task).unwrap();
        }
        let mut l = left.0.lock().unwrap();
        while *l > 0 {
            l = left.1.wait(l).unwrap();
        }
    });
    let results = slots.into_iter().map(|s| s.into_inner().unwrap().unwrap()).collect();
    let mut st = ex.st.lock().unwrap();
    Run { results, abort: st.abort.take(), trace: std::mem::take(&mut st.trace), points: st.points, diverged: st.diverged }
}

/// the schedule after the one with trace `t`, in depth-first order
pub fn next(t: &[Choice], from: usize) -> Option<Vec<usize>> {
    for k in (from..t.len()).rev() {
        if t[k].taken + 1 < t[k].cands.len() {
            let mut p: Vec<usize> = t[..k].iter().map(|c| c.taken).collect();
            p.push(t[k].taken + 1);
            return Some(p);
        }
    }
    None
}
