//! C22: expected-token sets against FIRST sets computed with the concrete call stack on the
//! grammar's own graph.
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::enumg::strings;
use crate::p_core::{key, over_families};
use crate::p_pred::guarded;
use crate::run::*;
use std::collections::{BTreeSet, HashMap, HashSet};

/// tokens that can come next in `state` with the given follow states (innermost first)
pub fn first(a: &Atn, out: &[Vec<(usize, Tr)>], state: usize, follow: &[usize]) -> BTreeSet<i32> {
    let mut res = BTreeSet::new();
    let mut seen: HashSet<(usize, Vec<usize>)> = HashSet::new();
    // call stack as a vector, innermost last
    let mut st: Vec<usize> = follow.to_vec();
    st.reverse();
    let mut work = vec![(state, st)];
    while let Some((s, st)) = work.pop() {
        if st.len() > 40 || !seen.insert((s, st.clone())) {
            continue;
        }
        if a.states[s].ty == St::RuleStop {
            let mut st = st;
            match st.pop() {
                Some(f) => work.push((f, st)),
                None => {
                    res.insert(EOF);
                }
            }
            continue;
        }
        for (t, tr) in &out[s] {
            let add = |x: &[(i32, i32)], res: &mut BTreeSet<i32>| x.iter().for_each(|(p, q)| res.extend(*p..=*q));
            match tr {
                Tr::Rule(start, _, _) => {
                    let mut st = st.clone();
                    st.push(*t);
                    work.push((*start, st));
                }
                Tr::Atom(x) => {
                    res.insert(*x);
                }
                Tr::Range(x, y) => add(&[(*x, *y)], &mut res),
                Tr::Set(v) => add(v, &mut res),
                Tr::NotSet(v) => res.extend((1..=a.max_token).filter(|x| !v.iter().any(|(p, q)| p <= x && x <= q))),
                Tr::Wild => res.extend(1..=a.max_token),
                _ => work.push((*t, st.clone())),
            }
        }
    }
    res
}
pub struct Firsts<'a> {
    pub a: &'a Atn,
    pub out: Vec<Vec<(usize, Tr)>>,
    memo: HashMap<(isize, Vec<isize>), Vec<i32>>,
}
impl<'a> Firsts<'a> {
    pub fn new(a: &'a Atn) -> Self {
        let mut out: Vec<Vec<(usize, Tr)>> = vec![vec![]; a.states.len()];
        for (s, t, tr) in &a.edges {
            out[*s].push((*t, tr.clone()));
        }
        Firsts { a, out, memo: HashMap::new() }
    }
    /// follow states of the invoking states (innermost first, the outermost is negative)
    pub fn follow(&self, stack: &[isize]) -> Vec<usize> {
        stack.iter().filter(|s| **s >= 0).map(|s| self.out[*s as usize][0].0).collect()
    }
    pub fn memo_len(&self) -> usize {
        self.memo.len()
    }
    pub fn at(&mut self, state: isize, stack: &[isize]) -> Vec<i32> {
        if let Some(v) = self.memo.get(&(state, stack.to_vec())) {
            return v.clone();
        }
        let f = self.follow(stack);
        let v: Vec<i32> = first(self.a, &self.out, state as usize, &f).into_iter().collect();
        self.memo.insert((state, stack.to_vec()), v.clone());
        v
    }
}
pub fn show_set(v: &[i32]) -> String {
    let n: Vec<String> = v.iter().map(|t| display_name(*t)).collect();
    match n.len() {
        0 => "{}".into(),
        1 => n[0].clone(),
        _ => format!("{{{}}}", n.join(", ")),
    }
}
fn check(f: &mut Firsts, o: &Out, input: &[i32]) -> Result<(), String> {
    for p in &o.probes {
        let w = f.at(p.state, &p.stack);
        if w != p.expected {
            return Err(format!("in state {} called from {:?} the expected tokens are {} instead of {}", p.state, p.stack, show_set(&p.expected), show_set(&w)));
        }
    }
    for e in &o.errors {
        let w = f.at(e.state, &e.stack);
        if w != e.expected {
            return Err(format!("at the error '{}' in state {} called from {:?} the expected tokens are {} instead of {}", e.msg, e.state, e.stack, show_set(&e.expected), show_set(&w)));
        }
        let ti = e.tok.map(|t| t.0).unwrap_or(-1);
        let name = if ti == input.len() as isize { "'<EOF>'".to_string() } else { format!("'{}'", tok_text(*input.get(ti as usize).unwrap_or(&-9))) };
        let msgs = match &e.kind {
            EKind::Mismatch { .. } => {
                // the set of the failing point, or of a point passed since the last consumed
                // token where the parser could have taken an optional part
                let mut v = vec![format!("mismatched input {} expecting {}", name, show_set(&w))];
                for p in o.probes.iter().filter(|p| p.at == e.at) {
                    v.push(format!("mismatched input {} expecting {}", name, show_set(&f.at(p.state, &p.stack))));
                }
                v
            }
            EKind::Inline => vec![format!("extraneous input {} expecting {}", name, show_set(&w)), format!("missing {} at {}", show_set(&w), name)],
            _ => continue,
        };
        if !msgs.contains(&e.msg) {
            return Err(format!("message \"{}\" instead of {}", e.msg, msgs.iter().map(|m| format!("\"{}\"", m)).collect::<Vec<_>>().join(" or ")));
        }
        if e.msg.starts_with("missing") {
            // the token at which it is missing can follow the missing one
            let next = f.out[e.state as usize][0].0 as isize;
            let can = f.at(next, &e.stack);
            let ty = e.tok.map(|t| t.1 as i32).unwrap_or(-9);
            if !can.contains(&ty) {
                return Err(format!("message \"{}\" although {} cannot follow", e.msg, display_name(ty)));
            }
        }
    }
    Ok(())
}

fn expectations(g: &Grammar, inputs: &[Vec<i32>], preds: &[Preds], st: &mut Stats) {
    let l = Loaded::new(compile(g));
    let prog = l.prog.clone();
    let mut f = Firsts::new(&prog.atn);
    for input in inputs {
        for start in 0..g.rules.len() {
            for (bail, pr) in [(false, 0), (true, 0)].into_iter().chain((1..preds.len()).map(|k| (false, k))) {
                if (bail || pr > 0) && start > 0 {
                    continue;
                }
                let mut cfg = Cfg::new(Mode::LL).start(start).preds(preds[pr].clone());
                cfg.probe = true;
                cfg.bail = bail;
                let r = guard(|| parse(&l, &stoks(input), &cfg));
                st.traces += 1;
                match r {
                    Err(e) => st.fail(key(g, input), format!("{}\ninput {:?} from r{}: panic {}", g.show(), input, start, e)),
                    Ok(o) => {
                        st.transitions += (o.probes.len() + o.errors.len()) as u64;
                        for p in &o.probes {
                            st.outcome(&(p.state, &p.stack, &p.expected));
                        }
                        st.count("error messages checked", o.errors.len() as u64);
                        if let Err(e) = check(&mut f, &o, input) {
                            st.fail(key(g, input), format!("{}\ninput {:?} from r{}: {}", g.show(), input, start, e));
                        }
                    }
                }
                if st.failed() {
                    return;
                }
            }
        }
    }
    st.states += f.memo.len() as u64;
    st.sample(|| format!("{} {} points", g.show(), f.memo.len()));
}

pub fn c22(tier: Tier) -> Vec<Plan> {
    let mut v = over_families(
        tier.pick(1, 2),
        move |f| match (f.alpha, tier) {
            (2, Tier::Quick) => 4,
            (2, _) => 6,
            (3, Tier::Quick) => 4,
            (3, _) => 6,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        |g, inputs, st| expectations(g, inputs, &[Preds::Mask(!0)], st),
    );
    // predicates do not hide what stands behind them
    for f in families(tier.pick(0, 1)) {
        let n = if f.alpha <= 3 { tier.pick(3, 4) } else { 2 };
        let inputs = strings(f.alpha, n);
        let gs = f.gs;
        let b = format!("{} ({} grammars), every choice of up to {} alternatives guarded; all predicates true, all false; all strings over {} tokens up to length {}", f.desc, gs.len(), 2, f.alpha, n);
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs[i], 2) {
                expectations(&g, &inputs, &[Preds::Mask(!0), Preds::Mask(0)], st);
                if st.failed() {
                    return;
                }
            }
        }));
    }
    v
}
