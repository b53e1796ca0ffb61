//! C31: what error recovery does at each step, against a model of the documented strategy
//! that works on the grammar's own graph.
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::p_core::{key, over_families};
use crate::p_exp::{show_set, Firsts};
use crate::p_pred::guarded;
use crate::run::*;
use std::collections::{BTreeSet, HashMap, HashSet};

/// tokens that can come next within the rule, and whether its end can come next
fn local(a: &Atn, out: &[Vec<(usize, Tr)>], state: usize) -> (BTreeSet<i32>, bool) {
    let mut res = BTreeSet::new();
    let mut ends = false;
    let mut seen: HashSet<(usize, Vec<usize>)> = HashSet::new();
    let mut work: Vec<(usize, Vec<usize>)> = vec![(state, vec![])];
    while let Some((s, st)) = work.pop() {
        if st.len() > 40 || !seen.insert((s, st.clone())) {
            continue;
        }
        if a.states[s].ty == St::RuleStop {
            let mut st = st;
            match st.pop() {
                Some(f) => work.push((f, st)),
                None => ends = true,
            }
            continue;
        }
        for (t, tr) in &out[s] {
            let set = |x: &[(i32, i32)]| x.iter().flat_map(|(p, q)| *p..=*q).collect::<Vec<i32>>();
            match tr {
                Tr::Rule(start, _, _) => {
                    let mut st = st.clone();
                    st.push(*t);
                    work.push((*start, st));
                }
                Tr::Atom(x) => {
                    res.insert(*x);
                }
                Tr::Range(x, y) => res.extend(*x..=*y),
                Tr::Set(v) => res.extend(set(v)),
                Tr::NotSet(v) => res.extend((1..=a.max_token).filter(|x| !v.iter().any(|(p, q)| p <= x && x <= q))),
                Tr::Wild => res.extend(1..=a.max_token),
                _ => work.push((*t, st.clone())),
            }
        }
    }
    (res, ends)
}

struct Model<'a> {
    f: Firsts<'a>,
    loc: HashMap<usize, (BTreeSet<i32>, bool)>,
    // the strategy's memory
    recovering: bool,
    failed_at: isize,
    failed_in: BTreeSet<isize>,
    put_at: isize,
    put: Vec<(isize, usize)>,
}
/// how a call may end: position, recovering?, messages, result
#[derive(Debug, PartialEq)]
struct End {
    at: isize,
    recovering: bool,
    msgs: usize,
    call: Call,
}
impl<'a> Model<'a> {
    fn new(a: &'a Atn) -> Self {
        Model { f: Firsts::new(a), loc: HashMap::new(), recovering: false, failed_at: -1, failed_in: BTreeSet::new(), put_at: -1, put: vec![] }
    }
    fn local(&mut self, s: usize) -> (BTreeSet<i32>, bool) {
        let (a, out) = (self.f.a, &self.f.out);
        self.loc.entry(s).or_insert_with(|| local(a, out, s)).clone()
    }
    /// what can follow one of the rules being executed
    fn resume(&mut self, stack: &[isize]) -> BTreeSet<i32> {
        let mut r = BTreeSet::new();
        for f in self.f.follow(stack) {
            r.extend(self.local(f).0);
        }
        r
    }
    fn matched(&mut self) {
        self.recovering = false;
        self.failed_at = -1;
        self.failed_in.clear();
        self.put.clear();
    }
    fn step(&mut self, s: &Step, input: &[i32]) -> End {
        let tok = |i: isize| if (i as usize) < input.len() { input[i as usize] } else { EOF };
        let at = s.before.0;
        let skip = |mut p: isize, set: &BTreeSet<i32>| {
            while tok(p) != EOF && !set.contains(&tok(p)) {
                p += 1
            }
            p
        };
        let mut end = End { at, recovering: self.recovering, msgs: s.before.2, call: s.call.clone() };
        match &s.call {
            Call::Match | Call::Reset => {
                self.matched();
            }
            Call::Report => {
                end.msgs += !self.recovering as usize;
                self.recovering = true;
            }
            Call::Recover(_) => {
                let mut p = at;
                if self.failed_at == at && self.failed_in.contains(&s.state) && tok(p) != EOF {
                    p += 1;
                }
                self.failed_at = p;
                self.failed_in.insert(s.state);
                let set = self.resume(&s.stack);
                end.at = skip(p, &set);
                end.call = Call::Recover(true);
            }
            Call::Sync(_) => {
                let (here, ends) = self.local(s.state as usize);
                end.call = Call::Sync(true);
                if !self.recovering && !here.contains(&tok(at)) && !ends {
                    let exp = self.f.at(s.state, &s.stack);
                    match self.f.a.states[s.state as usize].ty {
                        St::PlusLoopBack | St::StarLoopBack => {
                            end.msgs += 1;
                            self.recovering = true;
                            let mut set = self.resume(&s.stack);
                            set.extend(exp);
                            end.at = skip(at, &set);
                        }
                        _ => {
                            if exp.contains(&tok(at + 1)) && tok(at) != EOF {
                                end.msgs += 1;
                                end.at = at + 1;
                                self.matched();
                            } else {
                                end.call = Call::Sync(false);
                            }
                        }
                    }
                }
            }
            Call::Inline(_) => {
                let exp = self.f.at(s.state, &s.stack);
                let next = self.f.out[s.state as usize][0].0 as isize;
                let depth = s.stack.len() - 1;
                if exp.contains(&tok(at + 1)) && tok(at) != EOF {
                    end.msgs += !self.recovering as usize;
                    // the token after it is matched instead
                    end.at = at + 1 + (tok(at + 1) != EOF) as isize;
                    let ty = tok(at + 1);
                    let text = if ty == EOF { "<EOF>".into() } else { tok_text(ty) };
                    end.call = Call::Inline(Some((ty as isize, at + 1, placed(text, at + 1))));
                    self.matched();
                } else {
                    if self.put_at != at {
                        self.put_at = at;
                        self.put.clear();
                    }
                    let again = self.put.iter().any(|(q, d)| *q == s.state && *d <= depth);
                    if self.f.at(next, &s.stack).contains(&tok(at)) && !again {
                        self.put.push((s.state, depth));
                        end.msgs += !self.recovering as usize;
                        self.recovering = true;
                        let ty = exp[0];
                        let text = if ty == EOF { "<missing EOF>".to_string() } else { format!("<missing {}>", display_name(ty)) };
                        let text = if ty == EOF { "<EOF>".to_string() } else { text };
                        end.call = Call::Inline(Some((ty as isize, -1, placed(text, if tok(at) == EOF { (at - 1).max(0) } else { at }))));
                    } else {
                        end.call = Call::Inline(None);
                    }
                }
            }
        }
        end.recovering = self.recovering;
        end
    }
}

/// text and position of a token the strategy gives; one made up stands where it is missed, or
/// at the last token before the end
fn placed(text: String, at: isize) -> String {
    format!("{} at {}:{}", text, line_of(at), at)
}

fn check(g: &Grammar, m: &mut Model, l: &Loaded, input: &[i32], cfg: &Cfg, st: &mut Stats) {
    let o = match guard(|| parse(l, &stoks(input), cfg)) {
        Ok(o) => o,
        Err(e) => {
            st.fail(key(g, input), format!("{}\ninput {:?} from r{}: panic {}", g.show(), input, cfg.start, e));
            return;
        }
    };
    st.traces += 1;
    follow(g, m, &o.steps, input, cfg.start, "", st);
}

/// the steps are those of the model
fn follow(g: &Grammar, m: &mut Model, steps: &[Step], input: &[i32], start: usize, how: &str, st: &mut Stats) {
    m.matched();
    m.put_at = -1;
    for s in steps {
        st.transitions += 1;
        if !matches!(s.call, Call::Match) {
            st.states += 1;
        }
        let was = m.recovering;
        let w = m.step(s, input);
        let got = End { at: s.after.0, recovering: s.after.1, msgs: s.after.2, call: s.call.clone() };
        if got != w || s.before.1 != was {
            let exp = if s.state >= 0 { show_set(&m.f.at(s.state, &s.stack)) } else { String::new() };
            st.fail(
                format!("{} from r{}{}", key(g, input), start, how),
                format!("{}\ninput {:?} from r{}, at token {} in state {} called from {:?}, where {} can come{}: recovery does {:?} instead of {:?}", g.show(), input, start, s.before.0, s.state, s.stack, exp, if was { ", recovering" } else { "" }, got, w),
            );
            return;
        }
        st.outcome(&(&s.call, s.state, s.after.0 - s.before.0));
        match &s.call {
            Call::Inline(Some((_, -1, _))) => st.count("insertions", 1),
            Call::Inline(Some(_)) => st.count("deletions", 1),
            Call::Inline(None) => st.count("mismatches", 1),
            Call::Recover(_) => st.count("resynchronisations", 1),
            Call::Sync(_) if s.after != s.before => st.count("repairs at loops and choices", 1),
            _ => {}
        }
    }
}

/// chains of rule calls from the first rule on, at most `depth` long
fn chains(a: &Atn, depth: usize) -> Vec<Vec<(usize, isize)>> {
    let mut all = vec![vec![(0, -1)]];
    let mut k = 0;
    while k < all.len() {
        let c = all[k].clone();
        k += 1;
        let r = c.last().unwrap().0;
        if c.len() < depth {
            for (from, _, tr) in &a.edges {
                if let Tr::Rule(_, to, _) = tr {
                    if a.states[*from].rule as usize == r {
                        let mut c = c.clone();
                        c.push((*to, *from as isize));
                        all.push(c);
                    }
                }
            }
        }
    }
    all
}
/// every call of the strategy that could be made, in every chain
fn calls(a: &Atn, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    let out = Firsts::new(a).out;
    for chain in chains(a, depth) {
        let rule = chain.last().unwrap().0;
        let mut op = |state: usize, call: Call| {
            let unless = if matches!(call, Call::Inline(_)) { local(a, &out, state).0.into_iter().collect() } else { vec![] };
            v.push(Op { chain: chain.clone(), state: state as isize, call, unless })
        };
        let mut token: Vec<usize> = a.edges.iter().filter(|(f, _, t)| a.states[*f].rule as usize == rule && matches!(t, Tr::Atom(_) | Tr::Range(..) | Tr::Set(_))).map(|e| e.0).collect();
        token.dedup();
        for s in &token {
            op(*s, Call::Inline(None));
            op(*s, Call::Recover(true));
        }
        for s in &a.decisions {
            if a.states[*s].rule as usize == rule {
                op(*s, Call::Sync(true));
            }
        }
        op(token.first().copied().unwrap_or(a.rule_start[rule]), Call::Report);
    }
    let at = Op { unless: vec![], ..v[0].clone() };
    v.push(Op { call: Call::Match, ..at.clone() });
    v.push(Op { call: Call::Reset, ..at });
    v
}
/// all sequences of calls, made by hand
fn by_hand(t: Tier) -> Plan {
    let mut gs = classic();
    gs.retain(|g| g.rules.len() <= 2);
    let (len, budget) = (t.pick(2, 3), t.pick(40_000, 2_000_000));
    let ins = crate::enumg::strings(2, len);
    let b = format!("{} grammars; all sequences of calls of the error strategy, at every state of every chain of at most 2 rule calls, as long as there are at most {} of them; all strings of 2 tokens up to length {}", gs.len(), budget, len);
    let n = gs.len();
    plan("calls made by hand", b, n * ins.len(), move |i, st| {
        let g = &gs[i % n];
        let input = &ins[i / n];
        let l = Loaded::new(compile(g));
        let prog = l.prog.clone();
        let mut m = Model::new(&prog.atn);
        let ops = calls(&prog.atn, 2);
        let mut depth = 1;
        while ops.len().pow(depth + 1) <= budget {
            depth += 1;
        }
        st.count(&format!("sequences of {}", depth), ops.len().pow(depth) as u64);
        let ts = stoks(input);
        for k in 0..ops.len().pow(depth) {
            let mut q = k;
            let seq: Vec<&Op> = (0..depth).map(|_| { let o = &ops[q % ops.len()]; q /= ops.len(); o }).collect();
            let how = || seq.iter().map(|o| format!(" {:?}@{}", o.call, o.state)).collect::<String>();
            st.traces += 1;
            match guard(|| drive(&l, &ts, &seq)) {
                Ok(steps) => follow(g, &mut m, &steps, input, 0, &"", st),
                Err(e) => st.fail(format!("{}{}", key(g, input), how()), format!("{}\ninput {:?}{}: panic {}", g.show(), input, how(), e)),
            }
            if st.failed() {
                return;
            }
        }
    })
}

pub fn c31(t: Tier) -> Vec<Plan> {
    let mut v = over_families(
        t.pick(1, 2),
        move |f| match (f.alpha, t) {
            (2, Tier::Quick) => 5,
            (2, _) => 7,
            (3, Tier::Quick) => 4,
            (3, _) => 5,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        |g, ins, st| {
            let l = Loaded::new(compile(g));
            let prog = l.prog.clone();
            let mut m = Model::new(&prog.atn);
            for input in ins {
                for r in 0..g.rules.len() {
                    let mut cfg = Cfg::new(Mode::LL).start(r);
                    cfg.spy = true;
                    check(g, &mut m, &l, input, &cfg, st);
                    if r == 0 {
                        check(g, &mut m, &l, input, &Cfg { mode: Mode::Sll, ..cfg.clone() }, st);
                        check(g, &mut m, &l, input, &cfg.clone().ll1(), st);
                        check(g, &mut m, &l, input, &Cfg { build_tree: false, ..cfg.clone() }, st);
                    }
                    if st.failed() {
                        return;
                    }
                }
            }
            st.count("grammars", 1);
            st.sample(|| g.show());
        },
    );
    v.push(by_hand(t));
    for f in families(0) {
        if f.alpha > 3 {
            continue;
        }
        let n = t.pick(3, 4);
        let ins = crate::enumg::strings(f.alpha, n);
        let gs = f.gs;
        let b = format!("{} ({} grammars) with one predicate, true or false; all strings over {} tokens up to length {}", f.desc, gs.len(), f.alpha, n);
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs[i], 1) {
                let l = Loaded::new(compile(&g));
                let prog = l.prog.clone();
            let mut m = Model::new(&prog.atn);
                for input in &ins {
                    for mask in [0, !0] {
                        let mut cfg = Cfg::new(Mode::LL).preds(Preds::Mask(mask));
                        cfg.spy = true;
                        check(&g, &mut m, &l, input, &cfg, st);
                        if st.failed() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    v
}
