//! C07: parsing does not depend on the history of the shared caches. Explores the states of
//! the shared prediction DFAs reachable by histories of parses; in every state every parse
//! must give what it gives with cold caches.
use crate::enumg::strings;
use crate::fam::families;
use crate::grammar::*;
use crate::interp::*;
use crate::run::*;
use std::collections::{BTreeMap, HashSet, VecDeque};

/// one step of a history: a parse of an input under a configuration
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Letter {
    pub input: Vec<i32>,
    pub cfg: Cfg,
}
impl Letter {
    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self.input);
        if self.cfg.mode != Mode::LL {
            s += &format!(" {:?}", self.cfg.mode);
        }
        if self.cfg.start != 0 {
            s += &format!(" from r{}", self.cfg.start);
        }
        if self.cfg.preds != Preds::Mask(!0) {
            s += &format!(" {:?}", self.cfg.preds);
        }
        if self.cfg.bail {
            s += " bail";
        }
        s
    }
}

/// hash of the shared DFAs up to the numbering of their states
pub fn cache_key(l: &Loaded) -> u64 {
    let mut all = vec![];
    for d in l.dfas.iter() {
        let d = d.read();
        let mut num: BTreeMap<usize, usize> = BTreeMap::new();
        let mut order = vec![];
        if let Some(s0) = d.s0 {
            num.insert(s0, 0);
            order.push(s0);
        }
        let local = |i: usize| {
            let s = &d.states[i];
            let mut cs: Vec<(usize, isize, u64)> = s.configs.get_items().map(|c| (c.get_state(), c.get_alt(), c.default_hash())).collect();
            cs.sort();
            let mut ps: Vec<String> = s.predicates.iter().map(|p| p.to_string()).collect();
            ps.sort();
            hash(&(cs, s.is_accept_state, s.prediction, s.requires_full_context, ps))
        };
        let mut out: Vec<(u64, Vec<i64>)> = vec![];
        let mut i = 0;
        while i < order.len() {
            let s = order[i];
            let mut es = vec![];
            for e in &d.states[s].edges {
                es.push(if *e == 0 {
                    -1
                } else if *e >= d.states.len() {
                    -2
                } else {
                    let n = num.len();
                    *num.entry(*e).or_insert_with(|| {
                        order.push(*e);
                        n
                    }) as i64
                });
            }
            while es.last() == Some(&-1) {
                es.pop();
            }
            out.push((local(s), es));
            i += 1;
        }
        let mut rest: Vec<u64> = (1..d.states.len()).filter(|s| !num.contains_key(s)).map(|s| local(s)).collect();
        rest.sort();
        all.push((out, rest));
    }
    hash(&all)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Obs {
    tree: Option<T>,
    err: Option<String>,
    errors: Vec<ErrRec>,
    decs: Vec<Dec>,
    diags: Vec<Diag>,
    end: isize,
}
pub fn obs(o: Out) -> Obs {
    Obs { tree: o.tree, err: o.err, errors: o.errors, decs: o.decs, diags: o.diags, end: o.end_index }
}
pub fn show_obs(o: &Result<Obs, String>) -> String {
    match o {
        Err(e) => format!("panic: {}", e),
        Ok(o) => format!("tree {} decisions {:?} errors {:?} diagnostics {:?} end {}", o.tree.as_ref().map(|t| t.show()).unwrap_or_default(), o.decs, o.errors.iter().map(|e| (&e.msg, e.at)).collect::<Vec<_>>(), o.diags, o.end),
    }
}

/// Explores histories over `letters` up to `depth`, merging those that leave the shared
/// DFAs in the same state, at most `cap` states; then one saturating history.
pub fn explore(g: &Grammar, base: &Loaded, letters: &[Letter], depth: usize, cap: usize, st: &mut Stats) {
    let toks: Vec<Vec<STok>> = letters.iter().map(|l| stoks(&l.input)).collect();
    let run = |l: &Loaded, i: usize| guard(|| obs(parse(l, &toks[i], &letters[i].cfg)));
    let cold: Vec<Result<Obs, String>> = (0..letters.len()).map(|i| run(&base.fresh(), i)).collect();
    for c in &cold {
        if let Ok(c) = c {
            st.outcome(&(&c.tree, &c.decs, &c.errors));
        }
    }
    let mut seen: HashSet<u64> = HashSet::new();
    let mut q: VecDeque<Vec<usize>> = VecDeque::new();
    q.push_back(vec![]);
    seen.insert(cache_key(base));
    let bad = |h: &[usize], i: usize, got: &Result<Obs, String>, st: &mut Stats| {
        let hs: Vec<String> = h.iter().map(|x| letters[*x].show()).collect();
        st.fail(
            format!("{}| {} after {:?}", g.show(), letters[i].show(), hs),
            format!("{}\nhistory {:?}, then {}\nwarm: {}\ncold: {}", g.show(), hs, letters[i].show(), show_obs(got), show_obs(&cold[i])),
        );
    };
    while let Some(h) = q.pop_front() {
        st.states += 1;
        for i in 0..letters.len() {
            let l = base.fresh();
            for x in &h {
                let _ = run(&l, *x);
            }
            let got = run(&l, i);
            st.transitions += 1;
            st.traces += 1;
            if got != cold[i] {
                bad(&h, i, &got, st);
                if st.failed() {
                    return;
                }
            }
            if h.len() + 1 <= depth && seen.len() < cap && seen.insert(cache_key(&l)) {
                let mut h2 = h.clone();
                h2.push(i);
                q.push_back(h2);
            }
        }
    }
    if seen.len() >= cap {
        st.count("grammars cut at the state cap", 1);
    }
    // saturation: everything twice, forwards and backwards
    let n = letters.len();
    for rev in [false, true] {
        let l = base.fresh();
        let mut h = vec![];
        for j in 0..3 * n {
            let i = if rev { n - 1 - j % n } else { j % n };
            let got = run(&l, i);
            st.traces += 1;
            st.transitions += 1;
            if got != cold[i] {
                bad(&h, i, &got, st);
                if st.failed() {
                    return;
                }
            }
            h.push(i);
        }
    }
    st.count("grammars", 1);
    st.sample(|| format!("{}: {} cache states, {} letters", g.show(), seen.len(), letters.len()));
}

pub fn c07(tier: Tier) -> Vec<Plan> {
    let lvl = tier.pick(0, 1);
    let mut v = vec![];
    for f in families(lvl) {
        let n = match (f.alpha, tier) {
            (2, Tier::Quick) => 3,
            (2, _) => 4,
            (3, Tier::Quick) => 2,
            (3, _) => 3,
            (_, Tier::Quick) => 1,
            _ => 2,
        };
        let inputs = strings(f.alpha, n);
        let extra = strings(f.alpha, n + 1);
        let depth = tier.pick(2, 3);
        let cap = tier.pick(60, 300);
        let gs = f.gs;
        let b = format!(
            "{} ({} grammars); histories of parses of all strings over {} tokens up to length {} (LL; SLL, exact and other start rules for the shorter ones), to depth {} and at most {} distinct cache states, then a saturating history over lengths up to {}",
            f.desc, gs.len(), f.alpha, n, depth, cap, n + 1
        );
        v.push(plan(f.name, b, gs.len(), move |i, st| {
            let g = &gs[i];
            let base = Loaded::new(compile(g));
            let mut letters = vec![];
            for s in &inputs {
                letters.push(Letter { input: s.clone(), cfg: Cfg::new(Mode::LL) });
                if s.len() + 1 == n {
                    letters.push(Letter { input: s.clone(), cfg: Cfg::new(Mode::Sll) });
                    letters.push(Letter { input: s.clone(), cfg: Cfg::new(Mode::Exact) });
                    for r in 1..g.rules.len() {
                        letters.push(Letter { input: s.clone(), cfg: Cfg::new(Mode::LL).start(r) });
                    }
                }
            }
            explore(g, &base, &letters, depth, cap, st);
            if st.failed() {
                return;
            }
            let sat: Vec<Letter> = extra.iter().flat_map(|s| [Mode::LL, Mode::Sll, Mode::Exact].map(|m| Letter { input: s.clone(), cfg: Cfg::new(m) })).collect();
            explore(g, &base, &sat, 0, 0, st);
        }));
    }
    v
}
