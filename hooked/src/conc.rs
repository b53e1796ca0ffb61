//! C18: threads using recognizers of one grammar at the same time. Every schedule of the
//! threads' lock operations with at most a bounded number of preemptions is executed; each
//! thread must obtain what it obtains alone with cold caches, and so must every parse and
//! every lexer run made afterwards with the caches the threads left behind.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::lexi::*;
use crate::p_hist::*;
use crate::run::*;
use std::collections::HashSet;

/// what one thread does
#[derive(Clone, Debug)]
pub enum Job {
    Parse(Vec<i32>, Cfg),
    Lex(String, Script),
    Pipe(String, Cfg),
}
impl Job {
    fn show(&self) -> String {
        match self {
            Job::Parse(i, c) => Letter { input: i.clone(), cfg: c.clone() }.show(),
            Job::Lex(t, s) if s.preds.is_empty() => format!("lex {:?}", t),
            Job::Lex(t, s) => format!("lex {:?} {:?}", t, s.preds),
            Job::Pipe(t, c) => format!("{:?} {:?}", t, c.mode),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    P(Obs),
    L(LOut),
    B(Obs, Vec<LErr>),
}
/// the shared data of the recognizers of one grammar
pub struct Shared {
    lexer: Option<Loaded>,
    parser: Option<Loaded>,
}
impl Shared {
    fn fresh(&self) -> Shared {
        // the ATN too, because follow sets are computed lazily inside it
        let f = |l: &Loaded| Loaded::new(l.prog.clone());
        Shared { lexer: self.lexer.as_ref().map(f), parser: self.parser.as_ref().map(f) }
    }
    fn key(&self) -> u64 {
        hash(&(self.lexer.as_ref().map(cache_key), self.parser.as_ref().map(cache_key)))
    }
    fn run(&self, j: &Job) -> Res {
        match j {
            Job::Parse(i, c) => Res::P(obs(parse(self.parser.as_ref().unwrap(), &stoks(i), c))),
            Job::Lex(t, s) => {
                let mut o = lex(self.lexer.as_ref().unwrap(), t, s);
                // how often predicates are asked depends on the cache
                o.preds.clear();
                Res::L(o)
            }
            Job::Pipe(t, c) => {
                let (o, e) = lex_parse(self.lexer.as_ref().unwrap(), self.parser.as_ref().unwrap(), t, c);
                Res::B(obs(o), e)
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Bound {
    preemptions: usize,
    fine: bool,
    cap: usize,
}

fn panic_text() -> String {
    last_panic()
}

/// all schedules of `jobs` started after the history `warm`
pub fn explore(name: &str, base: &Shared, warm: &[Job], jobs: &[Job], b: Bound, st: &mut Stats) {
    let cold: Vec<Result<Res, String>> = jobs.iter().map(|j| guard(|| base.fresh().run(j))).collect();
    let mut prefix = vec![];
    let mut ends: HashSet<u64> = HashSet::new();
    let mut n = 0;
    loop {
        let sh = base.fresh();
        for j in warm {
            let _ = guard(|| sh.run(j));
        }
        let fs: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = jobs
            .iter()
            .map(|j| {
                let sh = &sh;
                Box::new(move || sh.run(j)) as Box<dyn FnOnce() -> Res + Send + '_>
            })
            .collect();
        beat();
        let r = vsched::run(fs, &prefix, b.preemptions, b.fine, &panic_text);
        n += 1;
        st.traces += 1;
        st.transitions += r.points;
        st.states += r.trace.len() as u64;
        if r.diverged {
            st.count("schedules that diverged from their prefix", 1);
        }
        let sched = || {
            let t: Vec<String> = r.trace.iter().map(|c| c.cands[c.taken].to_string()).collect();
            format!("{}; threads {:?} after {:?}; schedule (thread chosen at each choice) {}", name, jobs.iter().map(|j| j.show()).collect::<Vec<_>>(), warm.iter().map(|j| j.show()).collect::<Vec<_>>(), t.join(""))
        };
        if let Some(a) = &r.abort {
            st.fail(format!("{}|{}", name, a), format!("{}\n{}", sched(), a));
            if st.failed() {
                return;
            }
        } else {
            for (i, x) in r.results.iter().enumerate() {
                if *x != cold[i] {
                    st.fail(format!("{}|{}", name, jobs[i].show()), format!("{}\nthread {} got  {:?}\nalone it gets {:?}", sched(), i, x, cold[i]));
                    if st.failed() {
                        return;
                    }
                }
            }
            if ends.insert(sh.key()) {
                for _ in 0..2 {
                    for (i, j) in jobs.iter().enumerate() {
                        let x = guard(|| sh.run(j));
                        if x != cold[i] {
                            st.fail(format!("{}|{} afterwards", name, j.show()), format!("{}\nafterwards {} gives {:?}\nalone it gives {:?}", sched(), j.show(), x, cold[i]));
                            if st.failed() {
                                return;
                            }
                        }
                    }
                }
            }
        }
        match vsched::next(&r.trace, 0) {
            None => break,
            Some(p) => prefix = p,
        }
        if n >= b.cap {
            st.count("cases cut at the schedule cap", 1);
            break;
        }
    }
    st.outcome(&(name, n));
    st.count("cases explored to the end of their schedules", 1);
    st.count("distinct cache states left behind", ends.len() as u64);
    st.sample(|| format!("{} {:?}: {} schedules, {} cache states", name, jobs.iter().map(|j| j.show()).collect::<Vec<_>>(), n, ends.len()));
}

fn parser_of(g: &Grammar) -> Shared {
    Shared { lexer: None, parser: Some(Loaded::new(compile(g))) }
}

/// all multisets of `k` jobs
fn multisets(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for r in multisets(n, k - 1) {
        for i in r.last().copied().unwrap_or(0)..n {
            let mut x = r.clone();
            x.push(i);
            v.push(x);
        }
    }
    v
}

fn lexer_of(g: &Grammar) -> Shared {
    Shared { lexer: Some(Loaded::new(compile(g))), parser: None }
}

/// all choices of `threads` jobs, on every grammar
fn jobs_plan(name: &str, what: &str, gs: Vec<Grammar>, shared: impl Fn(&Grammar) -> Shared + Sync + 'static, warm: Vec<Job>, jobs: Vec<Job>, threads: usize, b: Bound) -> Plan {
    let ms = multisets(jobs.len(), threads);
    let d = format!(
        "{} ({} grammars){}; {} threads, all choices of {} jobs; all schedules with at most {} preemptions at lock operations{}, at most {} schedules per case",
        what,
        gs.len(),
        if warm.is_empty() { String::new() } else { format!(", caches warmed by {} jobs", warm.len()) },
        threads,
        jobs.len(),
        b.preemptions,
        if b.fine { " and releases" } else { "" },
        b.cap,
    );
    plan(name, d, gs.len() * ms.len(), move |i, st| {
        let g = &gs[i / ms.len()];
        let js: Vec<Job> = ms[i % ms.len()].iter().map(|x| jobs[*x].clone()).collect();
        explore(&g.show(), &shared(g), &warm, &js, b, st);
    })
}
fn parses(inputs: Vec<Vec<i32>>, cfgs: &[Cfg]) -> Vec<Job> {
    inputs.iter().flat_map(|s| cfgs.iter().map(move |c| Job::Parse(s.clone(), c.clone()))).collect()
}
fn lexes(inputs: &[(Vec<i32>, String)], scripts: &[Script]) -> Vec<Job> {
    inputs.iter().flat_map(|s| scripts.iter().map(move |c| Job::Lex(s.1.clone(), c.clone()))).collect()
}
/// a lexer for the tokens a, b, c; blanks are skipped
fn abc_lexer() -> Grammar {
    use El::*;
    let ch = |c: char| Tok(c as i32);
    let mut ws = lrule("WS", 4, vec![vec![Plus(vec![vec![ch(' ')]], true), Action(0)]]);
    ws.mode = 0;
    Grammar {
        lexer: true,
        rules: vec![
            lrule("A", 1, vec![vec![ch('a')]]),
            lrule("B", 2, vec![vec![ch('b')]]),
            lrule("C", 3, vec![vec![Plus(vec![vec![ch('c')]], true)]]),
            ws,
        ],
        max_token: 4,
        modes: 1,
        actions: vec![(6, 0, 0)],
    }
}
fn texts(n: usize) -> Vec<String> {
    strings(4, n).into_iter().map(|s| s.into_iter().map(|x| ['a', 'b', 'c', ' '][x as usize - 1]).collect()).collect()
}

pub fn c18(t: Tier) -> Vec<Plan> {
    let mut v = vec![];
    let cap = t.pick(100_000, 1_000_000);
    let b = |p| Bound { preemptions: p, fine: false, cap };
    let fine = |p| Bound { preemptions: p, fine: true, cap };
    let ll = [Cfg::new(Mode::LL)];
    let modes = [Cfg::new(Mode::LL), Cfg::new(Mode::Sll), Cfg::new(Mode::Exact)];
    let cl = classic();
    v.push(jobs_plan("classic", "grammars with long, cyclic or context-dependent lookahead", cl.clone(), parser_of, vec![], parses(strings(3, t.pick(1, 2)), &ll), 2, b(t.pick(2, 3))));
    v.push(jobs_plan("modes", "the same in all prediction modes at once", cl.clone(), parser_of, vec![], parses(strings(3, 1), &modes), 2, b(1)));
    v.push(jobs_plan("long", "the same on longer inputs", cl.clone(), parser_of, vec![], parses(t.pick(vec![vec![1, 1, 2, 3], vec![1, 3, 2, 3], vec![2, 1, 1]], strings(3, 3)), &ll), 2, b(1)));
    v.push(jobs_plan("three", "the same with three threads", cl.clone(), parser_of, vec![], parses(vec![vec![1, 2], vec![1, 1], vec![]], &ll), 3, b(t.pick(1, 2))));
    v.push(jobs_plan("warm", "the same after other parses", cl.clone(), parser_of, parses(vec![vec![1], vec![2, 1]], &ll), parses(vec![vec![1, 2], vec![1, 3], vec![2, 2], vec![1, 1, 2]], &ll), 2, b(t.pick(2, 3))));
    v.push(jobs_plan("releases", "the same with a scheduling point at every release too", cl.clone(), parser_of, vec![], parses(vec![vec![1, 2], vec![1, 3]], &ll), 2, fine(t.pick(2, 3))));
    v.push(jobs_plan("all", "the same without a bound on preemptions", cl.iter().take(t.pick(4, 12)).cloned().collect(), parser_of, vec![], parses(vec![vec![], vec![1]], &ll), 2, b(1000)));
    v.push(jobs_plan("exprs", "left-recursive rules (precedence decisions)", exprs(t.pick(1, 2)), parser_of, vec![], parses(vec![vec![1], vec![1, 2, 1], vec![1, 3], vec![1, 2, 1, 2, 1]], &ll), 2, b(t.pick(1, 2))));
    let ps: Vec<Cfg> = [0u64, 1, 6, 7].iter().map(|m| Cfg::new(Mode::LL).preds(Preds::Mask(*m))).collect();
    v.push(jobs_plan("predicates", "grammars with predicates whose values differ between the threads", crate::p_pred::special(), parser_of, vec![], parses(vec![vec![1], vec![1, 2]], &ps), 2, b(t.pick(1, 2))));
    for f in families(0) {
        let step = (f.gs.len() / t.pick(300, 3000)).max(1);
        let gs: Vec<Grammar> = f.gs.iter().step_by(step).cloned().collect();
        v.push(jobs_plan(&format!("family {}", f.name), &f.desc, gs, parser_of, vec![], parses(vec![vec![1], vec![1, 2]], &ll), 2, b(1)));
    }
    // lexers
    use crate::p_lex as pl;
    let ab = [pl::A, pl::B];
    let every = |gs: Vec<Grammar>, n: usize| -> Vec<Grammar> {
        let k = (gs.len() / n).max(1);
        gs.into_iter().step_by(k).collect()
    };
    let log = [Script { acts: vec![Act::Log; 3], ..Default::default() }];
    let pr: Vec<Script> = [vec![LPred::Const(false), LPred::Even], vec![LPred::Const(true), LPred::Const(false)]].into_iter().map(|preds| Script { preds, ..Default::default() }).collect();
    let n = t.pick(400, 4000);
    v.push(jobs_plan("lexer actions", "lexer rules with embedded actions", every(pl::action_grammars(4), n), lexer_of, vec![], lexes(&pl::inputs(&ab, 2), &log), 2, b(t.pick(1, 2))));
    v.push(jobs_plan("lexer predicates", "lexer rules with predicates whose values differ between the threads", every(pl::pred_grammars(3), n), lexer_of, vec![], lexes(&pl::inputs(&ab, 1), &pr), 2, b(t.pick(1, 2))));
    v.push(jobs_plan("lexer commands", "four rules in two modes with commands", every(pl::command_grammars(5), n), lexer_of, vec![], lexes(&pl::inputs(&[pl::A, pl::B, 99], 1), &pl::plain()), 2, b(t.pick(1, 2))));
    v.push(jobs_plan("lexer rules", "two rules of weight <= 2", every(pl::tuples(2, 2, pl::shape(false, true)), n), lexer_of, vec![], lexes(&pl::inputs(&ab, 2), &pl::plain()), 2, b(t.pick(1, 2))));
    for (k, (g, al)) in pl::real_lexers().into_iter().enumerate() {
        v.push(jobs_plan(&format!("lexer real{}", k), "a realistic lexer", vec![g], lexer_of, vec![], lexes(&pl::inputs(&al[..al.len().min(4)], 2), &pl::plain()), 2, b(t.pick(2, 3))));
    }
    // texts through lexer and parser of one grammar
    let lx = Loaded::new(compile(&abc_lexer())).prog;
    let pipe = move |g: &Grammar| Shared { lexer: Some(Loaded::new(lx.clone())), parser: Some(Loaded::new(compile(g))) };
    let pj: Vec<Job> = texts(t.pick(1, 2)).into_iter().chain(["a b".to_string(), "aa b".to_string()]).map(|x| Job::Pipe(x, Cfg::new(Mode::LL))).collect();
    v.push(jobs_plan("pipeline", "a lexer feeding the parsers of the classic grammars", cl, pipe, vec![], pj, 2, b(t.pick(1, 2))));
    v
}
